From 52707253f633ea079bffb63b987e73f775ef31ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 01/54] fix: updating a curve point keeps stored values free of
 spread and fixings

---
 dcf/curves/curve.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 95ada81..93a3822 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -275,9 +275,13 @@ class Curve(object):
             return self(item)
         raise KeyError(item)
 
+    def _node_values(self):
+        # stored values at domain points (neither spread nor fixings applied)
+        return [self._func(x) for x in self.domain]
+
     def __setitem__(self, key, value):
         domain = list(self.domain)
-        data = list(self(domain))
+        data = self._node_values()
         if key in domain:
             data[domain.index(key)] = value
         else:
@@ -454,6 +458,9 @@ class DateCurve(Curve):
         super()._update(flt_domain, data)
         self._domain = domain
 
+    def _node_values(self):
+        return [self._func(self.day_count(d)) for d in self.domain]
+
     def __call__(self, x):
         if isinstance(x, (list, tuple)):
             return tuple(self(xx) for xx in x)
-- 
2.43.0


From 02eb2a80d64c1a39dcc5345dfe7d8bacd693a34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 02/54] fix: get_present_value leaves the valuation date of a
 payoff model alone

---
 dcf/pricer.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index ead6041..d44a122 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -10,6 +10,8 @@
 # License:  Apache License 2.0 (see LICENSE file)
 
 
+from copy import copy
+
 from .cashflows.cashflow import CashFlowLegList
 from .cashflows.payoffs import RateCashFlowPayOff
 from .curves.curve import DateCurve
@@ -94,11 +96,13 @@ def get_present_value(
         return sum(get_present_value(
             leg, discount_curve, valuation_date) for leg in cashflow_list.legs)
 
-    # store and set valuation date to payoff_model
-    model_valuation_date = valuation_date
+    # set valuation date to a copy of payoff_model,
+    # since the model itself may be shared
     if hasattr(cashflow_list, 'payoff_model'):
-        model_valuation_date = cashflow_list.payoff_model.valuation_date
-        cashflow_list.payoff_model.valuation_date = valuation_date
+        payoff_model = copy(cashflow_list.payoff_model)
+        payoff_model.valuation_date = valuation_date
+        cashflow_list = copy(cashflow_list)
+        cashflow_list.payoff_model = payoff_model
 
     # filter flows
     pay_dates = list(d for d in cashflow_list.domain if valuation_date <= d)
@@ -107,10 +111,6 @@ def get_present_value(
     value_flows = zip(pay_dates, cashflow_list[pay_dates])
     values = (discount_curve.get_discount_factor(valuation_date, t) * float(a)
               for t, a in value_flows)
-
-    # re-store model_valuation_date
-    if hasattr(cashflow_list, 'payoff_model'):
-        cashflow_list.payoff_model.valuation_date = model_valuation_date
     return sum(values)
 
 
-- 
2.43.0


From 89d410688bd83c4cc5223c63d0df69f7f411c531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 03/54] fix: get_fair_rate restores the fixed rate of each
 payoff, even on failure

---
 dcf/pricer.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index d44a122..f6df6c2 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -348,8 +348,11 @@ def get_fair_rate(cashflow_list, discount_curve,
     1000000.0
 
     """  # noqa 501
-    # store fixed rate
+    # store fixed rate (which may differ by payoff)
     fixed_rate = cashflow_list.fixed_rate
+    payoffs = cashflow_list.payoff(cashflow_list.domain)
+    fixed_rates = [(p, p.fixed_rate) for p in payoffs
+                   if hasattr(p, 'fixed_rate')]
 
     # set error function
     def err(current):
@@ -358,10 +361,13 @@ def get_fair_rate(cashflow_list, discount_curve,
         return pv - present_value
 
     # run bracketing
-    _, par, _ = _simple_bracketing(err, *bounds, precision)
-
-    # restore fixed rate
-    cashflow_list.fixed_rate = fixed_rate
+    try:
+        _, par, _ = _simple_bracketing(err, *bounds, precision)
+    finally:
+        # restore fixed rate
+        cashflow_list.fixed_rate = fixed_rate
+        for payoff, fixed_rate in fixed_rates:
+            payoff.fixed_rate = fixed_rate
     return par
 
 
-- 
2.43.0


From 713edfa1db6589bf14d29ba7330b409f479664e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:14 +0000
Subject: [PATCH 04/54] fix: sensitivities and curve fits leave the spread of
 curves as found, even on failure

---
 dcf/pricer.py | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index f6df6c2..0febb4c 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -10,6 +10,7 @@
 # License:  Apache License 2.0 (see LICENSE file)
 
 
+from contextlib import contextmanager
 from copy import copy
 
 from .cashflows.cashflow import CashFlowLegList
@@ -51,6 +52,20 @@ def _simple_bracketing(func, a, b, precision=1e-13):
     return _simple_bracketing(f, a, b, precision)
 
 
+@contextmanager
+def _shifted(curves, spread):
+    # set spread to each curve and remove it afterwards, even on failure
+    shifted = list()
+    try:
+        for curve in curves:
+            curve.spread = spread(curve)
+            shifted.append(curve)
+        yield
+    finally:
+        for curve in shifted:
+            curve.spread = None
+
+
 def get_present_value(
         cashflow_list, discount_curve, valuation_date=None):
     r""" calculates the present value by discounting cashflows
@@ -427,11 +442,8 @@ def get_basis_point_value(cashflow_list, discount_curve, valuation_date=None,
     if not isinstance(delta_curve, (list, tuple)):
         delta_curve = delta_curve,
 
-    for d in delta_curve:
-        d.spread = DateCurve([d.origin], [shift])
-    sh = get_present_value(cashflow_list, discount_curve, valuation_date)
-    for d in delta_curve:
-        d.spread = None
+    with _shifted(delta_curve, lambda d: DateCurve([d.origin], [shift])):
+        sh = get_present_value(cashflow_list, discount_curve, valuation_date)
 
     return (sh - pv) / shift * .0001
 
@@ -574,11 +586,9 @@ def get_bucketed_delta(cashflow_list, discount_curve, valuation_date=None,
 
     buckets = list()
     for g, s in zip(grids, shifts):
-        for d in delta_curve:
-            d.spread = DateCurve(g, s)
-        sh = get_present_value(cashflow_list, discount_curve, valuation_date)
-        for d in delta_curve:
-            d.spread = None
+        with _shifted(delta_curve, lambda d: DateCurve(g, s)):
+            sh = get_present_value(
+                cashflow_list, discount_curve, valuation_date)
 
         buckets.append((sh - pv) / shift * .0001)
     return tuple(buckets)
@@ -719,6 +729,15 @@ def get_curve_fit(cashflow_list, discount_curve, valuation_date=None,
 
     # copy fitting_curve but set al values to 0.0
     fitting_curve.spread = fitting_curve.__class__(fitting_grid, fitting_curve)
+    try:
+        return _fit_spread(cashflow_list, discount_curve, valuation_date,
+                           fitting_curve, present_value, precision, bounds)
+    finally:
+        fitting_curve.spread = None
+
+
+def _fit_spread(cashflow_list, discount_curve, valuation_date,
+                fitting_curve, present_value, precision, bounds):
     for d in fitting_curve.spread.domain:
         fitting_curve.spread[d] = 0.0
 
@@ -740,6 +759,4 @@ def get_curve_fit(cashflow_list, discount_curve, valuation_date=None,
         # run bracketing
         _simple_bracketing(err, *bounds, precision)
 
-    data = fitting_curve(fitting_curve.spread.domain)
-    fitting_curve.spread = None
-    return data
+    return fitting_curve(fitting_curve.spread.domain)
-- 
2.43.0


From 3710ebc13cb3bccbcfeede46e736fa3e89fdc342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 05/54] fix: results do not depend on the order in which curve
 points were inserted

---
 dcf/curves/curve.py | 3 ++-
 dcf/curves/fx.py    | 2 +-
 dcf/pricer.py       | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 93a3822..dec3946 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -76,6 +76,7 @@ def rate_table(curve, x_grid=None, y_grid=None):
         x_grid = list(curve.domain)
         if curve.origin not in x_grid:
             x_grid = [curve.origin] + x_grid
+        x_grid.sort()
     if y_grid is None:
         diff = list(e-s for s, e in zip(x_grid[:-1], x_grid[1:]))
         step = diff[0]
@@ -641,7 +642,7 @@ class ForwardCurve(DateCurve):
         :param value_date: future date of asset price
         :return: asset forward price at **value_date**
         """
-        last_date = self.domain[-1]
+        last_date = max(self.domain)
         if value_date <= last_date:
             return super().__call__(value_date)
         last_price = super().__call__(last_date)
diff --git a/dcf/curves/fx.py b/dcf/curves/fx.py
index 01c54c0..0f81277 100755
--- a/dcf/curves/fx.py
+++ b/dcf/curves/fx.py
@@ -28,7 +28,7 @@ class FxForwardCurve(ForwardCurve):
         self.foreign_curve = foreign_curve
 
     def get_forward_price(self, value_date):
-        last_date = self.domain[-1]
+        last_date = max(self.domain)
         if value_date <= last_date:
             return super().get_forward_price(value_date)
         else:
diff --git a/dcf/pricer.py b/dcf/pricer.py
index 0febb4c..008bf2e 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -565,7 +565,7 @@ def get_bucketed_delta(cashflow_list, discount_curve, valuation_date=None,
 
     pv = get_present_value(cashflow_list, discount_curve, valuation_date)
     delta_curve = discount_curve if delta_curve is None else delta_curve
-    delta_grid = delta_grid if delta_grid else discount_curve.domain
+    delta_grid = delta_grid if delta_grid else sorted(discount_curve.domain)
 
     if len(delta_grid) == 1:
         grids = (delta_grid,)
-- 
2.43.0


From 7da96257304d42c3baf479c1f872b83ebfc2cf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 06/54] fix: curves and leg lists keep their own copy of list
 arguments

---
 dcf/cashflows/cashflow.py     | 2 +-
 dcf/curves/curve.py           | 2 ++
 dcf/curves/volatilitycurve.py | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index 5a71e49..9c10eb6 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -216,7 +216,7 @@ class CashFlowLegList(CashFlowList):
                 cls = self.__class__.__name__, leg.__class__.__name__
                 raise ValueError("Legs %s of can be either `CashFlowList` "
                                  "or `RateCashFlowList` but not %s." % cls)
-        self._legs = legs
+        self._legs = tuple(legs)
         domains = tuple(tuple(leg.domain) for leg in self._legs)
         domain = list(sorted(set().union(*domains)))
         origin = min(leg.origin for leg in self._legs)
diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index dec3946..eb975d1 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -434,6 +434,8 @@ class DateCurve(Curve):
             day_count = day_count or data.kwargs.day_count
             data = data(domain)  # assuming data is a list of dates !
 
+        # do not share a mutable domain argument with the caller
+        domain = list(domain) if isinstance(domain, list) else tuple(domain)
         self._domain = domain
         self._origin = origin
         self._day_count = day_count
diff --git a/dcf/curves/volatilitycurve.py b/dcf/curves/volatilitycurve.py
index 9315fb0..fa191b3 100644
--- a/dcf/curves/volatilitycurve.py
+++ b/dcf/curves/volatilitycurve.py
@@ -49,7 +49,7 @@ class InstantaneousVolatilityCurve(VolatilityCurve):
             data = domain
             origin = data.origin if origin is None else origin
             new_domain = list()
-            for d in data.domain + [origin]:
+            for d in list(data.domain) + [origin]:
                 new_domain.extend(
                     [d - self._TIME_SHIFT, d, d + self._TIME_SHIFT])
             domain = sorted(set(new_domain))
-- 
2.43.0


From a4fb20c477c9fd52c188a04c889d70fe1d061b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:57 +0000
Subject: [PATCH 07/54] fix: kwargs of default probability curves hold default
 probabilities

---
 dcf/curves/creditcurve.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index 4bc85d4..bd2557d 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -211,6 +211,13 @@ class DefaultProbabilityCurve(SurvivalProbabilityCurve):
                                                       interpolation, origin,
                                                       day_count, forward_tenor)
 
+    @property
+    def kwargs(self):
+        """ returns constructor arguments as ordered dictionary """
+        kw = super().kwargs
+        kw['data'] = kw.data = tuple(1. - d for d in kw['data'])
+        return kw
+
 
 class FlatIntensityCurve(CreditCurve):
     r"""Credit curve storing and interpolating data as intensities
@@ -338,3 +345,10 @@ class MarginalDefaultProbabilityCurve(MarginalSurvivalProbabilityCurve):
             data = [1. - d for d in data]
         super(MarginalDefaultProbabilityCurve, self).__init__(
             domain, data, interpolation, origin, day_count, forward_tenor)
+
+    @property
+    def kwargs(self):
+        """ returns constructor arguments as ordered dictionary """
+        kw = super().kwargs
+        kw['data'] = kw.data = tuple(1. - d for d in kw['data'])
+        return kw
-- 
2.43.0


From 4b4af8f35ed06fd4561ecdb4ea89bdff9a255869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:57 +0000
Subject: [PATCH 08/54] fix: curves with log_linear_scheme can be pickled

---
 dcf/interpolation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dcf/interpolation.py b/dcf/interpolation.py
index dd5b3a0..80913ee 100755
--- a/dcf/interpolation.py
+++ b/dcf/interpolation.py
@@ -580,6 +580,7 @@ linear_scheme = constant_linear_constant
 logconstant_loglinear_logconstant = \
     _dyn_scheme(constant, loglinear, constant)
 log_linear_scheme = logconstant_loglinear_logconstant
+constant_loglinear_constant = log_linear_scheme  # find it by its own name
 
 logconstantrate_loglinearrate_logconstantrate = \
     _dyn_scheme(logconstantrate, loglinearrate, logconstantrate)
-- 
2.43.0


From 33a798e6250abedf40b74211ab975835a9b16292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:57 +0000
Subject: [PATCH 09/54] fix: curve kwargs carry custom functions and yield,
 domestic and foreign curves

---
 dcf/curves/curve.py | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index eb975d1..a4b3600 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -157,13 +157,21 @@ class Curve(object):
         kw = type(self.__class__.__name__ + 'Kwargs', (OrderedDict,), {})()
         for name in signature(self.__class__).parameters:
             attr = self(self.domain) if name == 'data' else None
-            attr = getattr(self, '_' + name, attr)
-            attr = getattr(attr, '__name__', attr)
+            attr = getattr(self, '_' + name, getattr(self, name, attr))
+            # names replace functions only if they can be resolved again
+            func_name = getattr(attr, '__name__', None)
+            if func_name and self._func_by_name(name, func_name) is attr:
+                attr = func_name
             if attr is not None:
                 kw[name] = attr
             setattr(kw, name, attr)
         return kw
 
+    def _func_by_name(self, name, func_name):
+        if func_name in self.INTERPOLATIONS:
+            return self.INTERPOLATIONS[func_name]
+        return vars(_interpolations).get(func_name)
+
     @property
     def domain(self):
         """coordinates and date of given (not interpolated) x-values"""
@@ -464,6 +472,11 @@ class DateCurve(Curve):
     def _node_values(self):
         return [self._func(self.day_count(d)) for d in self.domain]
 
+    def _func_by_name(self, name, func_name):
+        if name == 'day_count':
+            return self.DAY_COUNT.get(func_name)
+        return super()._func_by_name(name, func_name)
+
     def __call__(self, x):
         if isinstance(x, (list, tuple)):
             return tuple(self(xx) for xx in x)
@@ -622,12 +635,19 @@ class ForwardCurve(DateCurve):
                 data = [domain.value]
                 domain = [domain.origin]
         super().__init__(domain, data, interpolation, origin, day_count)
-        if isinstance(yield_curve, float) and self.origin is not None:
-            yc = (lambda x: exp(-self.day_count(x) * yield_curve))
-        else:
-            yc = yield_curve
-        self.yield_curve = yc
+        self._yield_curve = yield_curve
+
+    @property
+    def yield_curve(self):
         """ yield curve for extrapolation using discount factors """
+        yield_curve = self._yield_curve
+        if isinstance(yield_curve, float) and self.origin is not None:
+            return lambda x: exp(-self.day_count(x) * yield_curve)
+        return yield_curve
+
+    @yield_curve.setter
+    def yield_curve(self, yield_curve):
+        self._yield_curve = yield_curve
 
     def __call__(self, x):
         if isinstance(x, (list, tuple)):
-- 
2.43.0


From fefe91e0d3641d3165b6c729c22420559568bd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:57 +0000
Subject: [PATCH 10/54] fix: discounting from an equal origin date object gives
 the same result

---
 dcf/curves/creditcurve.py       | 4 ++--
 dcf/curves/interestratecurve.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index bd2557d..e32045d 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -175,7 +175,7 @@ class SurvivalProbabilityCurve(ProbabilityCurve):
         return curve.get_survival_prob(curve.origin, x)
 
     def _get_compounding_factor(self, start, stop):
-        if start is self.origin:
+        if start == self.origin:
             return self(stop)
         if start == stop:
             return 1. if 2 * float_info.min <= self(start) else 0.
@@ -234,7 +234,7 @@ class FlatIntensityCurve(CreditCurve):
     def _get_compounding_rate(self, start, stop):
         if start == stop == self.origin:
             return self(self.origin)
-        if start is self.origin:
+        if start == self.origin:
             return self(stop)
         if start == stop:
             return self._get_compounding_rate(
diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index e0c3bb2..9712a5b 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -309,7 +309,7 @@ class DiscountFactorCurve(InterestRateCurve):
                                                   forward_tenor)
 
     def _get_compounding_factor(self, start, stop):
-        if start is self.origin:
+        if start == self.origin:
             return self(stop)
         return self(stop) / self(start)
 
@@ -338,7 +338,7 @@ class ZeroRateCurve(InterestRateCurve):
     def _get_compounding_rate(self, start, stop):
         if start == stop == self.origin:
             return self(self.origin)
-        if start is self.origin:
+        if start == self.origin:
             return self(stop)
         if start == stop:
             return self._get_compounding_rate(
-- 
2.43.0


From 51a24941cff2dea95199cd9eb337d871fc764f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 11/54] fix: flat intensity at equal dates off origin

---
 dcf/curves/creditcurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index e32045d..fc4d4cd 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -238,7 +238,7 @@ class FlatIntensityCurve(CreditCurve):
             return self(stop)
         if start == stop:
             return self._get_compounding_rate(
-                start, start + self.__class__._time_shift)
+                start, start + self.__class__._TIME_SHIFT)
 
         s = self(start) * self.day_count(self.origin, start)
         e = self(stop) * self.day_count(self.origin, stop)
-- 
2.43.0


From b214d1de84fc57a52cd0d2a5fc04b089848503c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 12/54] fix: iterating and dividing curves

---
 dcf/curves/curve.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index a4b3600..467c1b5 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -277,7 +277,7 @@ class Curve(object):
         return item in self.domain
 
     def __iter__(self):
-        return self.domain
+        return iter(self.domain)
 
     def __getitem__(self, item):
         if item in self:
@@ -508,8 +508,9 @@ class DateCurve(Curve):
     def __div__(self, other):
         new = super(DateCurve, self).__div__(
             other.shifted(self.origin - other.origin))
-        new.origin = self.origin
-        return new
+        return self.__class__(
+            new.domain, new(new.domain), new._interpolation,
+            self.origin, self._day_count)
 
     def day_count(self, start, end=None):
         """ day count function to calculate a year fraction of time period
-- 
2.43.0


From e753f8d32a50618a7894d8a78705ab24a0b610a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 13/54] fix: schedules of products with float and datetime
 dates terminate

---
 dcf/cashflows/products.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/cashflows/products.py b/dcf/cashflows/products.py
index a60546c..775a1f1 100644
--- a/dcf/cashflows/products.py
+++ b/dcf/cashflows/products.py
@@ -39,12 +39,12 @@ def _interest_payment_dates(
     else:
         payment_date_list = [end_date]
         cnt = 1
-        while start_date + period <= payment_date_list[0]:
+        while start_date < end_date - period * cnt:
             payment_date_list.append(end_date - period * cnt)
             cnt += 1
         payment_date_list.reverse()
         for d in payment_date_list:
-            if hasattr('adjust', d):
+            if hasattr(d, 'adjust'):
                 d.adjust(convention, holidays)
         return payment_date_list
 
-- 
2.43.0


From cabb00f70a8522784c57f2031fe6e84ba90ddde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 14/54] fix: bracketing stops once the interval is exhausted

---
 dcf/pricer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 008bf2e..f218e16 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -47,6 +47,9 @@ def _simple_bracketing(func, a, b, precision=1e-13):
     m = a + (b - a) * 0.5
     if abs(b - a) < precision and abs(fb - fa) < precision:
         return a, m, b
+    if m == a or m == b:
+        # interval can't be divided any further
+        return a, m, b
 
     a, b = (m, b) if f(m) < 0 else (a, m)
     return _simple_bracketing(f, a, b, precision)
-- 
2.43.0


From e9eb4e5447f57597db56e468fac82b63993c6ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:14 +0000
Subject: [PATCH 15/54] fix: FxContainer keeps all pairs consistent, also for
 currencies added again

---
 dcf/curves/fx.py | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/dcf/curves/fx.py b/dcf/curves/fx.py
index 0f81277..8736cb9 100755
--- a/dcf/curves/fx.py
+++ b/dcf/curves/fx.py
@@ -159,34 +159,29 @@ class FxContainer(dict):
             raise AssertionError()
 
         # create missing FxCurves
-        self[self.currency, foreign_currency] = \
+        new = dict()
+        new[self.currency, foreign_currency] = \
             FxForwardCurve([self.domestic_curve.origin], [fx_spot],
                            domestic_curve=self.domestic_curve,
                            foreign_curve=foreign_curve)
-        self[foreign_currency, self.currency] = \
+        new[foreign_currency, self.currency] = \
             FxForwardCurve([self.domestic_curve.origin], [1 / fx_spot],
-                           domestic_curve=self.domestic_curve,
-                           foreign_curve=foreign_curve)
+                           domestic_curve=foreign_curve,
+                           foreign_curve=self.domestic_curve)
         # _update relevant FxCurves
         f = foreign_currency
-        new = dict()
         for d, s in self:
-            if s is self.currency and d is not foreign_currency:
+            if s == self.currency and d not in (s, f):
                 triangulated = self[d, s](self.domestic_curve.origin) * fx_spot
-                if (d, f) in self:
-                    self[d, f].foreign_curve = foreign_curve
-                    self[d, f].fx_spot = triangulated
-                    self[f, d].domestic_curve = foreign_curve
-                    self[f, d].fx_spot = 1 / triangulated
-                else:
-                    new[d, f] = FxForwardCurve(
-                        [self.domestic_curve.origin], [triangulated],
-                        domestic_curve=self[d, s].domestic_curve,
-                        foreign_curve=foreign_curve)
-                    new[f, d] = FxForwardCurve(
-                        [self.domestic_curve.origin], [1 / triangulated],
-                        domestic_curve=foreign_curve,
-                        foreign_curve=self[d, s].domestic_curve)
+                new[d, f] = FxForwardCurve(
+                    [self.domestic_curve.origin], [triangulated],
+                    domestic_curve=self[d, s].domestic_curve,
+                    foreign_curve=foreign_curve)
+                new[f, d] = FxForwardCurve(
+                    [self.domestic_curve.origin], [1 / triangulated],
+                    domestic_curve=foreign_curve,
+                    foreign_curve=self[d, s].domestic_curve)
+        # all at once, so a failure leaves the container unchanged
         self.update(new)
 
     def get_forward_price(self, domestic_currency, foreign_currency,
-- 
2.43.0


From 624c2dbb1222be22ff1411c7c93aa982db711c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 16/54] fix: integrals include the spread and do not need scipy

---
 dcf/curves/curve.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 467c1b5..7e479b7 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -18,7 +18,7 @@ from warnings import warn
 from .. import interpolation as _interpolations
 from ..compounding import continuous_compounding, continuous_rate
 from ..interpolation import linear_scheme, log_linear_scheme
-from ..daycount import day_count as _default_day_count
+from ..daycount import day_count as _default_day_count, DAYS_IN_YEAR
 
 
 def rate_table(curve, x_grid=None, y_grid=None):
@@ -555,22 +555,18 @@ class DateCurve(Curve):
         """  # noqa E501
 
         # try use result, error = scipy.integrate(self, start, stop)
+        s = self.day_count(start)
+        e = self.day_count(stop)
+        f = super(DateCurve, self).__call__
         try:
             from scipy.integrate import quad
             # raise ImportError()
-            s = self.day_count(start)
-            e = self.day_count(stop)
-            f = super(DateCurve, self).__call__
             value, *_ = quad(f, s, e)
         except ImportError:
-            value = 0.0
-            step = self._TIME_SHIFT
-            current = start
-            while current + step < stop:
-                value += self(current) * \
-                         self.day_count(current, current + step)
-                current += step
-            value += self(current) * self.day_count(current, stop)
+            # midpoint rule with (nearly) daily steps
+            n = max(1, round(abs(e - s) * DAYS_IN_YEAR))
+            step = (e - s) / n
+            value = sum(f(s + (i + .5) * step) for i in range(n)) * step
         result = value / self.day_count(start, stop)
         return result
 
@@ -782,6 +778,12 @@ class RateCurve(DateCurve):
         s = self._spread(x) if self._spread else 0.0
         return super().__call__(x) + s
 
+    def integrate(self, start, stop):
+        s = self._spread.integrate(start, stop) if self._spread else 0.0
+        return super().integrate(start, stop) + s
+
+    integrate.__doc__ = DateCurve.integrate.__doc__
+
     def __add__(self, other):
         new = super(RateCurve, self).__add__(self.__class__(other))
         return self.__class__(new, forward_tenor=self._forward_tenor)
-- 
2.43.0


From 1321030c17bfae67a1fe42305a6e3c68648d3366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 17/54] fix: zero is a valid origin and valuation date

---
 dcf/cashflows/cashflow.py   | 3 ++-
 dcf/cashflows/contingent.py | 2 +-
 dcf/curves/curve.py         | 4 ++--
 dcf/models/optionpricing.py | 3 ++-
 4 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index 9c10eb6..87b25d2 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -263,7 +263,8 @@ class FixedCashFlowList(CashFlowList):
 
         if isinstance(payment_date_list, CashFlowList):
             amount_list = payment_date_list[payment_date_list.domain]
-            origin = origin or getattr(payment_date_list, '_origin', None)
+            if origin is None:
+                origin = getattr(payment_date_list, '_origin', None)
             payment_date_list = payment_date_list.domain
 
         if isinstance(amount_list, (int, float)):
diff --git a/dcf/cashflows/contingent.py b/dcf/cashflows/contingent.py
index 661fea3..b7148cc 100644
--- a/dcf/cashflows/contingent.py
+++ b/dcf/cashflows/contingent.py
@@ -245,7 +245,7 @@ class ContingentRateCashFlowList(ContingentCashFlowList):
         if isinstance(amount_list, (int, float)):
             amount_list = [amount_list] * len(payment_date_list)
 
-        if origin:
+        if origin is not None:
             start_dates = [origin]
             start_dates.extend(payment_date_list[:-1])
         elif origin is None and len(payment_date_list) > 1:
diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 7e479b7..82c37eb 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -438,7 +438,7 @@ class DateCurve(Curve):
             domain = data.domain
         elif isinstance(data, DateCurve):
             interpolation = interpolation or data.kwargs.interpolation
-            origin = origin or data.kwargs.origin
+            origin = data.kwargs.origin if origin is None else origin
             day_count = day_count or data.kwargs.day_count
             data = data(domain)  # assuming data is a list of dates !
 
@@ -764,7 +764,7 @@ class RateCurve(DateCurve):
             # interpolation = other.interpolation
             # interpolation = \
             #     interpolation or other.kwargs.get('interpolation', None)
-            origin = origin or other.kwargs.origin
+            origin = other.kwargs.origin if origin is None else origin
             day_count = day_count or other.kwargs.day_count
 
         super(RateCurve, self).__init__(
diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 3858226..644d8e4 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -477,7 +477,8 @@ class BinaryOptionPayOffModel(OptionPayOffModel):
         """
         self._inner = pricing_formula
         if isinstance(pricing_formula, OptionPayOffModel):
-            valuation_date = valuation_date or pricing_formula.valuation_date
+            if valuation_date is None:
+                valuation_date = pricing_formula.valuation_date
             forward_curve = forward_curve or pricing_formula.forward_curve
             volatility_curve = volatility_curve \
                 or pricing_formula.volatility_curve
-- 
2.43.0


From 59f8179bb5b8a79c7cd5c7393b168cd38218126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 18/54] fix: FxContainer can be pickled

---
 dcf/curves/fx.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dcf/curves/fx.py b/dcf/curves/fx.py
index 8736cb9..d8eccac 100755
--- a/dcf/curves/fx.py
+++ b/dcf/curves/fx.py
@@ -115,6 +115,11 @@ class FxContainer(dict):
         self.domestic_curve = domestic_curve
         self.add(currency, domestic_curve)
 
+    def __reduce__(self):
+        # to be pickled: attributes have to be restored prior to items
+        state = self.__class__, self.__dict__.copy(), dict(self)
+        return _restore_container, state
+
     def __getitem__(self, item):
         if item in self:
             return super(FxContainer, self).__getitem__(item)
@@ -188,3 +193,10 @@ class FxContainer(dict):
                           value_date):
         return self[domestic_currency, foreign_currency].get_forward_price(
             value_date)
+
+
+def _restore_container(cls, attributes, items):
+    container = cls.__new__(cls)
+    container.__dict__.update(attributes)
+    container.update(items)
+    return container
-- 
2.43.0


From 907c6c102f30280cfb704660f5a11b73d0f6d092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 19/54] fix: changing the returned domain list does not change
 the curve

---
 dcf/curves/curve.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 82c37eb..f6f57e7 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -158,6 +158,8 @@ class Curve(object):
         for name in signature(self.__class__).parameters:
             attr = self(self.domain) if name == 'data' else None
             attr = getattr(self, '_' + name, getattr(self, name, attr))
+            if name == 'domain':
+                attr = self.domain
             # names replace functions only if they can be resolved again
             func_name = getattr(attr, '__name__', None)
             if func_name and self._func_by_name(name, func_name) is attr:
@@ -175,7 +177,7 @@ class Curve(object):
     @property
     def domain(self):
         """coordinates and date of given (not interpolated) x-values"""
-        return self._domain
+        return self._domain[:]
 
     @property
     def table(self):
@@ -454,7 +456,7 @@ class DateCurve(Curve):
     def domain(self):
         r""" domain of curve $t_1 \dots t_n$ as list of dates
         where curve values are given explicit """
-        return self._domain
+        return self._domain[:]
 
     @property
     def origin(self):
-- 
2.43.0


From 765ff4c3c390d1fe5890b62701a303ce0220450c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:40:14 +0000
Subject: [PATCH 20/54] fix: swap annuity accrues over the given periods

---
 dcf/curves/interestratecurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index 9712a5b..6a00bca 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -275,7 +275,7 @@ class InterestRateCurve(RateCurve):
         """
         return sum(
             self.get_discount_factor(self.origin, e) * self.day_count(s, e)
-            for s, e in zip(date_list[:-1], date_list[0:])
+            for s, e in zip(date_list[:-1], date_list[1:])
         )
 
 
-- 
2.43.0


From 86cce21b431ffa3f1b483bcfc2d6983037a4c884 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:40:14 +0000
Subject: [PATCH 21/54] fix: cash rates off the tenor of a CashRateCurve do not
 recurse forever

---
 dcf/curves/interestratecurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index 6a00bca..4b2b83b 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -438,4 +438,4 @@ class CashRateCurve(InterestRateCurve):
             stop = start + self.forward_tenor if step is None else start + step
         if stop == start + self.forward_tenor:
             return self(start)
-        return super(CashRateCurve, self).get_cash_rate(start, stop)
+        return super(CashRateCurve, self)._get_cash_rate(start, stop)
-- 
2.43.0


From 3d820f62586ac17ac74cf376056aed5bdb6108cd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:40:14 +0000
Subject: [PATCH 22/54] fix: short and hazard rates of curves with a single
 point do not recurse forever

---
 dcf/curves/creditcurve.py       | 3 +++
 dcf/curves/interestratecurve.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index fc4d4cd..eb3a208 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -120,6 +120,9 @@ class CreditCurve(RateCurve):
 
     def _get_hazard_rate(self, start):  # aka get_short_rate
 
+        if min(self.domain) == max(self.domain):
+            # no period given by a single curve point
+            return self.get_flat_intensity(start, start + self._TIME_SHIFT)
         if start < min(self.domain):
             return self.get_hazard_rate(min(self.domain))
         if max(self.domain) <= start:
diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index 4b2b83b..9952d38 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -143,6 +143,9 @@ class InterestRateCurve(RateCurve):
         return self._get_short_rate(start)
 
     def _get_short_rate(self, start):
+        if min(self.domain) == max(self.domain):
+            # no period given by a single curve point
+            return self.get_zero_rate(start, start + self._TIME_SHIFT)
         if start < min(self.domain):
             return self.get_short_rate(min(self.domain))
         if max(self.domain) <= start:
-- 
2.43.0


From fd4aeae96e1e718a5a7bdf9b6d961bdca5c8f8c8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:40:31 +0000
Subject: [PATCH 23/54] fix: accrued interest of contingent rate cashflows

---
 dcf/pricer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index f218e16..4cb6312 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -302,7 +302,7 @@ def get_interest_accrued(cashflow_list, valuation_date):
                 if cf.start < valuation_date:
                     remaining = cf.day_count(valuation_date, cf.end)
                     total = cf.day_count(cf.start, cf.end)
-                    flow = cf(cashflow_list.forward_curve)
+                    flow = cashflow_list[pay_date]
                     ac += flow * (1. - remaining / total)
     return ac
 
-- 
2.43.0


From 571168cd65d95d54013b44230917f6367e62b6dd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:40:31 +0000
Subject: [PATCH 24/54] fix: greeks use the time to expiry, not the expiry date

---
 dcf/models/optionpricing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 644d8e4..2fe9d1b 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -337,7 +337,7 @@ class OptionPayOffModel(OptionPricingFormula):
         if not vol or not time:
             return 0.0
         if not self.bump_greeks:
-            gamma = self._call_gamma(date, strike, fwd, vol)
+            gamma = self._call_gamma(time, strike, fwd, vol)
             if gamma is not None:
                 return gamma * (scale ** 2)
         gamma = self._call_price(time, strike, fwd + shift, vol)
@@ -384,7 +384,7 @@ class OptionPayOffModel(OptionPricingFormula):
             if vega is not None:
                 return vega * scale
         vega = self._call_price(time, strike, fwd, vol + shift)
-        vega -= self._call_price(date, strike, fwd, vol)
+        vega -= self._call_price(time, strike, fwd, vol)
         vega *= scale / shift
         return vega
 
@@ -422,7 +422,7 @@ class OptionPayOffModel(OptionPricingFormula):
         if not vol or not time:
             return 0.0
         if not self.bump_greeks:
-            theta = self._call_theta(date, strike, fwd, vol)
+            theta = self._call_theta(time, strike, fwd, vol)
             if theta is not None:
                 return theta * scale
         theta = self._call_price(time + shift, strike, fwd, vol)
-- 
2.43.0


From e43c4d2bdde335ee39d0eb6b2e92102940b2fdd9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:40:31 +0000
Subject: [PATCH 25/54] fix: binary option model uses the given strike shift

---
 dcf/models/optionpricing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 2fe9d1b..665fd58 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -476,6 +476,8 @@ class BinaryOptionPayOffModel(OptionPayOffModel):
 
         """
         self._inner = pricing_formula
+        self._strike_shift = self.__class__.STRIKE_SHIFT \
+            if strike_shift is None else strike_shift
         if isinstance(pricing_formula, OptionPayOffModel):
             if valuation_date is None:
                 valuation_date = pricing_formula.valuation_date
@@ -487,7 +489,7 @@ class BinaryOptionPayOffModel(OptionPayOffModel):
                          day_count, bump_greeks=True)
 
     def _call_price(self, time, strike, forward, volatility):
-        shift = self.__class__.STRIKE_SHIFT
+        shift = self._strike_shift
         high_strike = strike + shift / 2
         low_strike = strike - shift / 2
         call = self._inner(time, low_strike, forward, volatility)
-- 
2.43.0


From 07154595e020c7bfc53360804610e60b2ace7e85 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:40:31 +0000
Subject: [PATCH 26/54] fix: option pricing formula types can be built from
 functions

---
 dcf/models/optionpricing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 665fd58..8c54df2 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -71,7 +71,7 @@ class OptionPricingFormula(object):
         """
         if name is None:
             name = func.__name__ + cls.__name__
-        return type(name, cls, {'__call__': func})
+        return type(name, (cls,), {'__call__': staticmethod(func)})
 
     def __call__(self, time, strike, forward, volatility):
         return self._call_price(time, strike, forward, volatility)
-- 
2.43.0


From 24f7e2358afef4803ec3069db795072a9de590e2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 27/54] fix: numerical theta is scaled like the other numerical
 greeks

---
 dcf/models/optionpricing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 8c54df2..54c0f05 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -427,7 +427,8 @@ class OptionPayOffModel(OptionPricingFormula):
                 return theta * scale
         theta = self._call_price(time + shift, strike, fwd, vol)
         theta -= self._call_price(time, strike, fwd, vol)
-        return theta * scale
+        theta *= scale / shift
+        return theta
 
     def get_put_theta(self, date, strike=None):
         r""" time sensitivity of a put option
-- 
2.43.0


From 75f3495b65cb3b789929a117a845c57c8b60cd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 28/54] fix: table of cashflow lists shows the cashflows of the
 list

The payoff model of contingent cashflow lists and the legs of cashflow leg
lists were ignored, so tables showed other cashflows than the list itself.
---
 dcf/cashflows/cashflow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index 87b25d2..5739a11 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -32,10 +32,10 @@ class CashFlowList(object):
             payoff = self._flows.get(d, 0.)
             if hasattr(payoff, 'details'):
                 fwd = getattr(self, 'forward_curve', None)
-                details = payoff.details(fwd)
+                details = payoff.details(getattr(self, 'payoff_model', fwd))
                 details['pay date'] = d
             else:
-                details = {'cashflow': float(payoff), 'pay date': d}
+                details = {'cashflow': float(self[d]), 'pay date': d}
             for k in self.__class__._cashflow_details:
                 if k in details and k not in header:
                     header.append(k)
-- 
2.43.0


From 94831b606d0f365059dd605511bdfb7862a74a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 29/54] fix: cashflows of called leg lists are those of its
 legs

Calling a cashflow leg list gave a list of zero cashflows.
---
 dcf/cashflows/cashflow.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index 5739a11..bbd89c3 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -231,6 +231,11 @@ class CashFlowLegList(CashFlowList):
             return sum(
                 float(leg[item]) for leg in self._legs if item in leg.domain)
 
+    def __call__(self, _=None):
+        legs = list(leg(_) for leg in self._legs)
+        flows = list(sum(leg[d] for leg in legs) for d in self.domain)
+        return CashFlowList(self.domain, flows, self._origin)
+
     def __add__(self, other):
         for leg in self._legs:
             leg.__add__(other)
-- 
2.43.0


From f635b9fc1b32204869541144fb5c6541622079d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:26 +0000
Subject: [PATCH 30/54] fix: greeks of displaced binary model use displaced
 forward and strike

---
 dcf/models/displaced.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/dcf/models/displaced.py b/dcf/models/displaced.py
index 73663fa..21821fd 100644
--- a/dcf/models/displaced.py
+++ b/dcf/models/displaced.py
@@ -113,3 +113,21 @@ class BinaryDisplacedLogNormalOptionPayOffModel(BinaryLogNormalOptionPayOffModel
                                    strike + self.displacement,
                                    forward + self.displacement,
                                    volatility)
+
+    def _call_delta(self, time, strike, forward, volatility):
+        return super()._call_delta(time,
+                                   strike + self.displacement,
+                                   forward + self.displacement,
+                                   volatility)
+
+    def _call_gamma(self, time, strike, forward, volatility):
+        return super()._call_gamma(time,
+                                   strike + self.displacement,
+                                   forward + self.displacement,
+                                   volatility)
+
+    def _call_vega(self, time, strike, forward, volatility):
+        return super()._call_vega(time,
+                                  strike + self.displacement,
+                                  forward + self.displacement,
+                                  volatility)
-- 
2.43.0


From 15256f46e806a9f63f0dd37679ef9709857dd0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 31/54] fix: bracketing a jump at zero does not exceed the
 recursion limit

---
 dcf/pricer.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 4cb6312..ed9ea30 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -38,21 +38,27 @@ def _simple_bracketing(func, a, b, precision=1e-13):
     else:
         f = func
 
-    if not fa <= 0. <= fb:
-        msg = "_simple_bracketing function must be loc monotone " \
-              "between %0.4f and %0.4f \n" % (a, b)
-        msg += "and _simple_bracketing 0. between  %0.4f and %0.4f." % (fa, fb)
-        raise AssertionError(msg)
-
-    m = a + (b - a) * 0.5
-    if abs(b - a) < precision and abs(fb - fa) < precision:
-        return a, m, b
-    if m == a or m == b:
-        # interval can't be divided any further
-        return a, m, b
-
-    a, b = (m, b) if f(m) < 0 else (a, m)
-    return _simple_bracketing(f, a, b, precision)
+    while True:
+        # a jump at zero takes more steps than calls can be nested
+        if not fa <= 0. <= fb:
+            msg = "_simple_bracketing function must be loc monotone " \
+                  "between %0.4f and %0.4f \n" % (a, b)
+            msg += "and _simple_bracketing 0. between " \
+                   " %0.4f and %0.4f." % (fa, fb)
+            raise AssertionError(msg)
+
+        m = a + (b - a) * 0.5
+        if abs(b - a) < precision and abs(fb - fa) < precision:
+            return a, m, b
+        if m == a or m == b:
+            # interval can't be divided any further
+            return a, m, b
+
+        fm = f(m)
+        if fm < 0:
+            a, fa = m, fm
+        else:
+            b, fb = m, fm
 
 
 @contextmanager
-- 
2.43.0


From c9e235aed9cb4c417f633c2a263c3a0c3c98a4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 32/54] fix: representation of option strategy payoffs recursed
 without end

---
 dcf/cashflows/payoffs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/cashflows/payoffs.py b/dcf/cashflows/payoffs.py
index 3d9ae4c..a7ecc6e 100644
--- a/dcf/cashflows/payoffs.py
+++ b/dcf/cashflows/payoffs.py
@@ -22,7 +22,7 @@ class CashFlowPayOff(object):
         return self.details(_).get('cashflow', 0.0)
 
     def __repr__(self):
-        return str(getattr(self, 'amount', self))
+        return str(getattr(self, 'amount', self.__class__.__name__ + '()'))
 
     def details(self, _=None):
         return {'cashflow': 0.0}
-- 
2.43.0


From a3499f1908d446be6c9c7bfe185059786683e14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:00 +0000
Subject: [PATCH 33/54] fix: columns of rate tables do not depend on the hash
 seed

---
 dcf/curves/curve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index f6f57e7..12cd76a 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -87,7 +87,8 @@ def rate_table(curve, x_grid=None, y_grid=None):
                 line.append(line[-1] + step)
             y_grid.extend(line)
             step = span
-        y_grid = tuple(sorted(set(y_grid)))
+        # unlike a set, keeps the order of periods which don't compare
+        y_grid = tuple(sorted(OrderedDict.fromkeys(y_grid)))
 
     # fill table
     grid = list()
-- 
2.43.0


From 1cf641a4df75db70d1112c04350a60f9400c26b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:41 +0000
Subject: [PATCH 34/54] fix: build log interpolations from dictionaries

the values were handed over as a generator, which the check for positive
values of log interpolations used up
---
 dcf/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/interpolation.py b/dcf/interpolation.py
index 80913ee..da446eb 100755
--- a/dcf/interpolation.py
+++ b/dcf/interpolation.py
@@ -66,7 +66,7 @@ class base_interpolation(object):
         :return: interpolation object
         """
 
-        return cls(sorted(xy_dict), (xy_dict[k] for k in sorted(xy_dict)))
+        return cls(sorted(xy_dict), [xy_dict[k] for k in sorted(xy_dict)])
 
 
 class flat(base_interpolation):
-- 
2.43.0


From e0d894a4c7b4ef6ab4b824d2fbaf717bd6fc486c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:41 +0000
Subject: [PATCH 35/54] fix: tell the number of options of a refused strategy

the message ended in a TypeError
---
 dcf/cashflows/contingent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dcf/cashflows/contingent.py b/dcf/cashflows/contingent.py
index b7148cc..354209c 100644
--- a/dcf/cashflows/contingent.py
+++ b/dcf/cashflows/contingent.py
@@ -181,7 +181,8 @@ class OptionStrategyCashflowList(ContingentCashFlowList):
         if 10 < len(put_strike_list) + len(call_strike_list):
             raise KeyError('OptionStrategyCashflowList are limited '
                            'to 10 options per strategy payoff not '
-                           '%d' % len(put_strike_list) + len(call_strike_list))
+                           '%d' % (len(put_strike_list) +
+                                   len(call_strike_list)))
         payoff_list = list()
         for expiry in payment_date_list:
             if pay_offset:
-- 
2.43.0


From d11a6c9244119084a1e024f01825d87dce1427e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:35 +0000
Subject: [PATCH 36/54] fix: vega of log normal options as documented

---
 dcf/models/black76.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/models/black76.py b/dcf/models/black76.py
index 9b9f833..8cb9319 100644
--- a/dcf/models/black76.py
+++ b/dcf/models/black76.py
@@ -68,7 +68,7 @@ class LogNormalOptionPayOffModel(OptionPayOffModel):
     def _call_vega(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (log(forward / strike) + (vol ** 2 / 2)) / vol
-        return forward * sqrt(time) * normal_pdf(d - vol)
+        return forward * sqrt(time) * normal_pdf(d)
 
 
 class BinaryLogNormalOptionPayOffModel(OptionPayOffModel):
-- 
2.43.0


From 2a5b5625bdeb84b181a10e947922ca0b8751f022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:35 +0000
Subject: [PATCH 37/54] fix: price and vega of binary log normal options match
 their delta

---
 dcf/models/black76.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dcf/models/black76.py b/dcf/models/black76.py
index 8cb9319..0988f03 100644
--- a/dcf/models/black76.py
+++ b/dcf/models/black76.py
@@ -89,21 +89,21 @@ class BinaryLogNormalOptionPayOffModel(OptionPayOffModel):
 
     Then
 
-        * call price: $$\Phi(d)$$
+        * call price: $$\Phi(d-\sigma \cdot \sqrt{\tau})$$
 
         * call delta:
-          $$\frac{\phi(d-\sigma \cdot \sqrt{\tau})}{\sigma \cdot \sqrt{\tau}}$$
+          $$\frac{\phi(d-\sigma \cdot \sqrt{\tau})}
+          {F \cdot \sigma \cdot \sqrt{\tau}}$$
 
-        * call gamma: $$d \cdot \frac{\phi(d)}{\sigma^2 \cdot \tau}$$
-
-        * call vega: $$(d/\sigma - \sqrt{\tau}) \cdot \phi(d)$$
+        * call vega:
+          $$-\frac{d}{\sigma} \cdot \phi(d-\sigma \cdot \sqrt{\tau})$$
 
     """
 
     def _call_price(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (log(forward / strike) + (vol ** 2 / 2)) / vol
-        return normal_cdf(d)
+        return normal_cdf(d - vol)
 
     def _call_delta(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
@@ -118,4 +118,4 @@ class BinaryLogNormalOptionPayOffModel(OptionPayOffModel):
     def _call_vega(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (log(forward / strike) + (vol ** 2 / 2)) / vol
-        return (d - vol) * normal_pdf(d) / volatility
+        return -d * normal_pdf(d - vol) / volatility
-- 
2.43.0


From 2803b33ce14edcd3e44ff1067f5735f1d22e572c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:35 +0000
Subject: [PATCH 38/54] fix: gamma and vega of binary normal options are
 derivatives of their price

---
 dcf/models/bachelier.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dcf/models/bachelier.py b/dcf/models/bachelier.py
index f6b3222..618bc67 100644
--- a/dcf/models/bachelier.py
+++ b/dcf/models/bachelier.py
@@ -88,9 +88,9 @@ class BinaryNormalOptionPayOffModel(OptionPayOffModel):
 
         * call delta: $$\frac{\phi(d)}{\sigma \cdot \sqrt{\tau}}$$
 
-        * call gamma: $$d \cdot \frac{\phi(d)}{\sigma^2 \cdot \tau}$$
+        * call gamma: $$-d \cdot \frac{\phi(d)}{\sigma^2 \cdot \tau}$$
 
-        * call vega: $$\sqrt{\tau} \cdot \phi(d)$$
+        * call vega: $$-\frac{d}{\sigma} \cdot \phi(d)$$
 
     """
 
@@ -107,9 +107,9 @@ class BinaryNormalOptionPayOffModel(OptionPayOffModel):
     def _call_gamma(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (forward - strike) / vol
-        return d * normal_pdf(d) / (vol * vol * time)
+        return -d * normal_pdf(d) / (vol * vol)
 
     def _call_vega(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (forward - strike) / vol
-        return sqrt(time) * normal_pdf(d)
+        return -d * normal_pdf(d) / volatility
-- 
2.43.0


From 50d6d1fabb9663d9cfbc91d3b168153d954dec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:35 +0000
Subject: [PATCH 39/54] fix: sums and products of date curves keep origin and
 day count

---
 dcf/curves/curve.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 12cd76a..ff642d9 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -490,23 +490,23 @@ class DateCurve(Curve):
     def __add__(self, other):
         new = super(DateCurve, self).__add__(
             other.shifted(self.origin - other.origin))
-        self.__class__(new.domain, new(new.domain), new._interpolation,
-                       self.origin, self._day_count)
-        return new
+        return self.__class__(
+            new.domain, new(new.domain), new._interpolation,
+            self.origin, self._day_count)
 
     def __sub__(self, other):
         new = super(DateCurve, self).__sub__(
             other.shifted(self.origin - other.origin))
-        self.__class__(new.domain, new(new.domain), new._interpolation,
-                       self.origin, self._day_count)
-        return new
+        return self.__class__(
+            new.domain, new(new.domain), new._interpolation,
+            self.origin, self._day_count)
 
     def __mul__(self, other):
         new = super(DateCurve, self).__mul__(
             other.shifted(self.origin - other.origin))
-        self.__class__(new.domain, new(new.domain), new._interpolation,
-                       self.origin, self._day_count)
-        return new
+        return self.__class__(
+            new.domain, new(new.domain), new._interpolation,
+            self.origin, self._day_count)
 
     def __div__(self, other):
         new = super(DateCurve, self).__div__(
-- 
2.43.0


From 4c4770bcd9acc6b16e848912170de49f32574cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:35 +0000
Subject: [PATCH 40/54] fix: annuity plans at rate zero

---
 dcf/plans.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dcf/plans.py b/dcf/plans.py
index 4b49e38..fa778fa 100644
--- a/dcf/plans.py
+++ b/dcf/plans.py
@@ -65,6 +65,8 @@ def annuity(num, amount=DEFAULT_AMOUNT, fixed_rate=FIXED_RATE):
     $$X_i = \frac{r}{(1 + r)^{n-i}} \cdot N \text{ for } i=1 \dots n$$
     """
     q = 1. + fixed_rate
+    if q == 1.:
+        return amortize(num, amount)
     a = amount * (q - 1) / (q ** int(num) - 1)
     return list(a * q ** i for i in range(int(num)))
 
-- 
2.43.0


From 743746f42913c908ebe95a299fd46793033bd9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:35 +0000
Subject: [PATCH 41/54] fix: products with the default day count can be valued

---
 dcf/cashflows/products.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dcf/cashflows/products.py b/dcf/cashflows/products.py
index 775a1f1..b6c9c20 100644
--- a/dcf/cashflows/products.py
+++ b/dcf/cashflows/products.py
@@ -55,7 +55,7 @@ def bond(start_date=TODAY,
          convention='mod_follow',
          holidays=None,
          notional_amount=1.0,
-         day_count='thirty360',
+         day_count=None,
          fixed_rate=0.0,
          forward_curve=None,
          fixing_offset=None,
@@ -131,13 +131,13 @@ def interest_rate_swap(start_date=TODAY,
                        convention='mod_follow',
                        holidays='target',
                        notional_amount=1.0,
-                       day_count='thirty360',
+                       day_count=None,
                        fixed_rate=0.0,
                        forward_curve=None,
                        fixing_offset=None,
                        pay_offset=None,
                        rec_leg_period=SWAP_TENOR,
-                       rec_leg_day_count='actact',
+                       rec_leg_day_count=None,
                        rec_leg_fixed_rate=0.0,
                        rec_leg_forward_curve=None):
     """ plain vanilla swap
-- 
2.43.0


From 05eee7de8b9a5f8cfeff92ac518c00c3bf5f0387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:56 +0000
Subject: [PATCH 42/54] fix: binary options pay one at expiry, calls and puts
 add up to one

---
 dcf/models/bachelier.py     |  4 ++--
 dcf/models/black76.py       |  4 ++--
 dcf/models/intrinsic.py     |  6 +++---
 dcf/models/optionpricing.py | 38 ++++++++++++++++++++++++++++++++++++-
 4 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/dcf/models/bachelier.py b/dcf/models/bachelier.py
index 618bc67..5174873 100644
--- a/dcf/models/bachelier.py
+++ b/dcf/models/bachelier.py
@@ -13,7 +13,7 @@
 from math import sqrt
 
 from .distibutions import normal_pdf, normal_cdf
-from .optionpricing import OptionPayOffModel
+from .optionpricing import BinaryPutCallParity, OptionPayOffModel
 
 
 class NormalOptionPayOffModel(OptionPayOffModel):
@@ -67,7 +67,7 @@ class NormalOptionPayOffModel(OptionPayOffModel):
         return sqrt(time) * normal_pdf(d)
 
 
-class BinaryNormalOptionPayOffModel(OptionPayOffModel):
+class BinaryNormalOptionPayOffModel(BinaryPutCallParity, OptionPayOffModel):
     r""" Bachelier option pricing formula for binary calls
     (see also |NormalOptionPayOffModel()|)
 
diff --git a/dcf/models/black76.py b/dcf/models/black76.py
index 0988f03..98df63e 100644
--- a/dcf/models/black76.py
+++ b/dcf/models/black76.py
@@ -13,7 +13,7 @@
 from math import sqrt, log
 
 from .distibutions import normal_cdf, normal_pdf
-from .optionpricing import OptionPayOffModel
+from .optionpricing import BinaryPutCallParity, OptionPayOffModel
 
 
 class LogNormalOptionPayOffModel(OptionPayOffModel):
@@ -71,7 +71,7 @@ class LogNormalOptionPayOffModel(OptionPayOffModel):
         return forward * sqrt(time) * normal_pdf(d)
 
 
-class BinaryLogNormalOptionPayOffModel(OptionPayOffModel):
+class BinaryLogNormalOptionPayOffModel(BinaryPutCallParity, OptionPayOffModel):
     r""" Black 76 option pricing formula for binary calls
     (see also |LogNormalOptionPayOffModel()|)
 
diff --git a/dcf/models/intrinsic.py b/dcf/models/intrinsic.py
index ef6f531..2c313d7 100644
--- a/dcf/models/intrinsic.py
+++ b/dcf/models/intrinsic.py
@@ -10,7 +10,7 @@
 # License:  Apache License 2.0 (see LICENSE file)
 
 
-from .optionpricing import OptionPayOffModel
+from .optionpricing import BinaryPutCallParity, OptionPayOffModel
 
 
 class IntrinsicOptionPayOffModel(OptionPayOffModel):
@@ -49,7 +49,7 @@ class IntrinsicOptionPayOffModel(OptionPayOffModel):
         return 0.0
 
 
-class BinaryIntrinsicOptionPayOffModel(OptionPayOffModel):
+class BinaryIntrinsicOptionPayOffModel(BinaryPutCallParity, OptionPayOffModel):
     r""" intrisic option pricing formula for binary call options
     (see also |IntrinsicOptionPayOffModel()|)
 
@@ -59,7 +59,7 @@ class BinaryIntrinsicOptionPayOffModel(OptionPayOffModel):
 
     Then
 
-        * call price: $$0 \text{ if } F < K \text{ else } 1$$
+        * call price: $$0 \text{ if } F \leq K \text{ else } 1$$
 
         * call delta: $$0$$
 
diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 54c0f05..90d71ec 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -444,7 +444,43 @@ class OptionPayOffModel(OptionPricingFormula):
         return self.get_call_theta(date, strike)
 
 
-class BinaryOptionPayOffModel(OptionPayOffModel):
+class BinaryPutCallParity(object):
+    r""" payoff at expiry and put/call parity of binary options
+
+    A binary call pays $1$ if $F(T) > K$, a binary put if $F(T) \leq K$.
+    Hence, $$P_K(F(T)) = 1 - C_K(F(T))$$
+
+    """
+
+    def get_call_value(self, date, strike=None):
+        time, strike, fwd, vol = self._tsfv(date, strike)
+        if not vol or not time:
+            return 0.0 if fwd <= strike else 1.0
+        return self._call_price(time, strike, fwd, vol)
+
+    def get_put_value(self, date, strike=None):
+        return 1.0 - self.get_call_value(date, strike)
+
+    def get_call_delta(self, date, strike=None):
+        time, _, _, vol = self._tsfv(date, strike)
+        if not vol or not time:
+            return 0.0
+        return super().get_call_delta(date, strike)
+
+    def get_put_delta(self, date, strike=None):
+        return -self.get_call_delta(date, strike)
+
+    def get_put_gamma(self, date, strike=None):
+        return -self.get_call_gamma(date, strike)
+
+    def get_put_vega(self, date, strike=None):
+        return -self.get_call_vega(date, strike)
+
+    def get_put_theta(self, date, strike=None):
+        return -self.get_call_theta(date, strike)
+
+
+class BinaryOptionPayOffModel(BinaryPutCallParity, OptionPayOffModel):
     STRIKE_SHIFT = 0.0001
     """finite difference to calculate binary option payoff as a call spread"""
 
-- 
2.43.0


From 0826d8155bff283579b0265cf38dd58e1ac5b756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:18 +0000
Subject: [PATCH 43/54] fix: algebra of curves with list and tuple domains

---
 dcf/curves/curve.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index ff642d9..e80ffae 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -307,17 +307,17 @@ class Curve(object):
         return self._func(x)
 
     def __add__(self, other):
-        x_list = sorted(set(self.domain + other.domain))
+        x_list = sorted(set(self.domain).union(other.domain))
         y_list = [self(x) + other(x) for x in x_list]
         return self.__class__(x_list, y_list, self._interpolation)
 
     def __sub__(self, other):
-        x_list = sorted(set(self.domain + other.domain))
+        x_list = sorted(set(self.domain).union(other.domain))
         y_list = [self(x) - other(x) for x in x_list]
         return self.__class__(x_list, y_list, self._interpolation)
 
     def __mul__(self, other):
-        x_list = sorted(set(self.domain + other.domain))
+        x_list = sorted(set(self.domain).union(other.domain))
         y_list = [self(x) * other(x) for x in x_list]
         return self.__class__(x_list, y_list, self._interpolation)
 
@@ -325,7 +325,7 @@ class Curve(object):
         return self.__div__(other)
 
     def __div__(self, other):
-        x_list = sorted(set(self.domain + other.domain))
+        x_list = sorted(set(self.domain).union(other.domain))
         if any(not other(x) for x in x_list):
             raise ZeroDivisionError("Division with %s requires on "
                                     "zero values." % other.__class__.__name__)
-- 
2.43.0


From 33e4a2e26b6dd74308563c9930aeab3424450c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:13 +0000
Subject: [PATCH 44/54] fix: schedules refuse periods which are not positive

---
 dcf/cashflows/products.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dcf/cashflows/products.py b/dcf/cashflows/products.py
index b6c9c20..7543968 100644
--- a/dcf/cashflows/products.py
+++ b/dcf/cashflows/products.py
@@ -30,6 +30,8 @@ def _interest_payment_dates(
         if bd.BusinessPeriod.is_businessperiod(end_date):
             end_date = start_date + bd.BusinessPeriod(end_date)
         end_date = bd.BusinessDate(end_date)
+        if not start_date < start_date + bd.BusinessPeriod(period):
+            raise ValueError("period must be positive")
 
         payment_date_list = bd.BusinessSchedule(
             start_date, end_date, period, end_date)
@@ -37,6 +39,8 @@ def _interest_payment_dates(
         return payment_date_list[1:]
 
     else:
+        if not end_date - period < end_date:
+            raise ValueError("period must be positive")
         payment_date_list = [end_date]
         cnt = 1
         while start_date < end_date - period * cnt:
-- 
2.43.0


From 9f49905cf29e46dabaef5011f701b6665f1e62e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:13 +0000
Subject: [PATCH 45/54] fix: swaps on business dates can be built with default
 holidays

---
 dcf/cashflows/products.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/cashflows/products.py b/dcf/cashflows/products.py
index 7543968..0f15034 100644
--- a/dcf/cashflows/products.py
+++ b/dcf/cashflows/products.py
@@ -133,7 +133,7 @@ def interest_rate_swap(start_date=TODAY,
                        end_date=TODAY + MATURITY,
                        period=BOND_TENOR,
                        convention='mod_follow',
-                       holidays='target',
+                       holidays=None,
                        notional_amount=1.0,
                        day_count=None,
                        fixed_rate=0.0,
@@ -211,7 +211,7 @@ def interest_rate_swap(start_date=TODAY,
 
 
 def asset_swap(coupon_leg, forward_curve, spread=0.0,
-               convention='mod_follow', holidays='target'):
+               convention='mod_follow', holidays=None):
     pay_leg = -1 * coupon_leg
     payment_date_list = _interest_payment_dates(
         coupon_leg.origin, coupon_leg.domain[-1],
-- 
2.43.0


From f7fef739dffd9844b1ef8736377454c99ea2d653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:35 +0000
Subject: [PATCH 46/54] fix: option models with flat forward or volatility zero

A forward curve given as number 0.0 was ignored, so any value failed.
---
 dcf/cashflows/payoffs.py    |  2 +-
 dcf/models/optionpricing.py | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/dcf/cashflows/payoffs.py b/dcf/cashflows/payoffs.py
index a7ecc6e..a0344c5 100644
--- a/dcf/cashflows/payoffs.py
+++ b/dcf/cashflows/payoffs.py
@@ -118,7 +118,7 @@ class RateCashFlowPayOff(CashFlowPayOff):
         }
 
         forward = 0.0
-        if forward_curve:
+        if forward_curve is not None:
             fixing_date = self.start
             if self.fixing_offset:
                 fixing_date -= self.fixing_offset
diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 90d71ec..ef90dc2 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -201,7 +201,7 @@ class OptionPayOffModel(OptionPricingFormula):
         """
         details = {'valuation date': self.valuation_date}
         forward = 0.0
-        if self.forward_curve:
+        if self.forward_curve is not None:
             if hasattr(self.forward_curve, 'get_forward_price'):
                 forward = self.forward_curve.get_forward_price(date)
             elif hasattr(self.forward_curve, 'get_cash_rate'):
@@ -221,7 +221,7 @@ class OptionPayOffModel(OptionPricingFormula):
         details['strike'] = strike
 
         volatility = 0.0
-        if self.volatility_curve:
+        if self.volatility_curve is not None:
             if hasattr(self.volatility_curve, 'get_terminal_vol'):
                 volatility = self.volatility_curve.get_terminal_vol(date)
             elif isinstance(self.volatility_curve, (int, float)):
@@ -518,9 +518,10 @@ class BinaryOptionPayOffModel(BinaryPutCallParity, OptionPayOffModel):
         if isinstance(pricing_formula, OptionPayOffModel):
             if valuation_date is None:
                 valuation_date = pricing_formula.valuation_date
-            forward_curve = forward_curve or pricing_formula.forward_curve
-            volatility_curve = volatility_curve \
-                or pricing_formula.volatility_curve
+            if forward_curve is None:
+                forward_curve = pricing_formula.forward_curve
+            if volatility_curve is None:
+                volatility_curve = pricing_formula.volatility_curve
             day_count = day_count or pricing_formula.day_count
         super().__init__(valuation_date, forward_curve, volatility_curve,
                          day_count, bump_greeks=True)
-- 
2.43.0


From 98b221436930415edc1aae4c62936a9fa8d0c45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:15 +0000
Subject: [PATCH 47/54] fix: interpolation by annual rates at zero

Discount factor and survival probability curves without a point at the
origin failed when asked for anything starting at the origin.
---
 dcf/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/interpolation.py b/dcf/interpolation.py
index da446eb..6d312a3 100755
--- a/dcf/interpolation.py
+++ b/dcf/interpolation.py
@@ -442,7 +442,7 @@ class loglinearrate(linear):
                 'log interpolation requires positive values. Got %s' % str(
                     y_list))
         z = [x for x in x_list if not x]
-        self._y_at_zero = y_list[x_list.index(z[0])] if z else None
+        self._y_at_zero = y_list[x_list.index(z[0])] if z else 1.0
         log_y_list = [log(y) / x for x, y in zip(x_list, y_list) if x]
         x_list = [x for x in x_list if x]
         super(loglinearrate, self).__init__(x_list, log_y_list)
@@ -490,7 +490,7 @@ class logconstantrate(constant):
         if not all(0. < y for y in y_list):
             raise ValueError('log interpolation requires positive values.')
         z = [x for x in x_list if not x]
-        self._y_at_zero = y_list[x_list.index(z[0])] if z else None
+        self._y_at_zero = y_list[x_list.index(z[0])] if z else 1.0
         log_y_list = [-log(y) / x for x, y in zip(x_list, y_list) if x]
         x_list = [x for x in x_list if x]
         super(logconstantrate, self).__init__(x_list, log_y_list)
-- 
2.43.0


From 27c01927fec4489f60888ebd497265ce204b18ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:23 +0000
Subject: [PATCH 48/54] fix: expired options are worth their payoff

Options valued after expiry failed with a math domain error, so did
caps, floors and collars when valued within one of their periods.
---
 dcf/models/optionpricing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index ef90dc2..a8f752c 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -166,7 +166,10 @@ class OptionPayOffModel(OptionPricingFormula):
     def _tsfv(self, date, strike=None):
         details = self.details(date, strike)
         keys = 'time to expiry', 'strike', 'forward', 'volatility'
-        return tuple(details.get(k, None) for k in keys)
+        time, strike, forward, vol = (details.get(k, None) for k in keys)
+        # an expired option is worth its payoff
+        time = 0.0 if time < 0 else time
+        return time, strike, forward, vol
         # fwd = 0.0
         # if self.forward_curve:
         #     if hasattr(self.forward_curve, 'get_forward_price'):
-- 
2.43.0


From 9c8f54282af17df3be53ed4d58929baf52fb4cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:50 +0000
Subject: [PATCH 49/54] fix: fixings of forward curves beyond their last point

Prices fixed after the last point of a forward curve, e.g. in a feed
behind, were ignored in favour of the extrapolated ones.
---
 dcf/curves/curve.py | 2 +-
 dcf/curves/fx.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index e80ffae..ed4549a 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -665,7 +665,7 @@ class ForwardCurve(DateCurve):
         :return: asset forward price at **value_date**
         """
         last_date = max(self.domain)
-        if value_date <= last_date:
+        if value_date <= last_date or value_date in self.fixings:
             return super().__call__(value_date)
         last_price = super().__call__(last_date)
         if self.yield_curve is None:
diff --git a/dcf/curves/fx.py b/dcf/curves/fx.py
index d8eccac..8d51dad 100755
--- a/dcf/curves/fx.py
+++ b/dcf/curves/fx.py
@@ -29,7 +29,7 @@ class FxForwardCurve(ForwardCurve):
 
     def get_forward_price(self, value_date):
         last_date = max(self.domain)
-        if value_date <= last_date:
+        if value_date <= last_date or value_date in self.fixings:
             return super().get_forward_price(value_date)
         else:
             y = super().get_forward_price(last_date)
-- 
2.43.0


From 69bce3ede6638719954349685f86cdb1ac77e48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:39 +0000
Subject: [PATCH 50/54] fix: casts to other dates keep the origin of the curve

Casting a curve without explicit origin to a grid which does not start at
its first date took the first date of the grid as origin of the values
taken with respect to the first date of the curve.  So the cast curve had
other discount factors and survival probabilities at all dates.
---
 dcf/curves/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index ed4549a..4b8f80a 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -441,7 +441,7 @@ class DateCurve(Curve):
             domain = data.domain
         elif isinstance(data, DateCurve):
             interpolation = interpolation or data.kwargs.interpolation
-            origin = data.kwargs.origin if origin is None else origin
+            origin = data.origin if origin is None else origin
             day_count = day_count or data.kwargs.day_count
             data = data(domain)  # assuming data is a list of dates !
 
@@ -767,7 +767,7 @@ class RateCurve(DateCurve):
             # interpolation = other.interpolation
             # interpolation = \
             #     interpolation or other.kwargs.get('interpolation', None)
-            origin = other.kwargs.origin if origin is None else origin
+            origin = other.origin if origin is None else origin
             day_count = day_count or other.kwargs.day_count
 
         super(RateCurve, self).__init__(
-- 
2.43.0


From af18fed70b15a90eca01fdaaf05702733d23ac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:39 +0000
Subject: [PATCH 51/54] fix: date curves can be built from date curves

DateCurve(curve) and ForwardCurve(curve) took the points of the given
curve for year fractions, which failed for dates and gave other points
for numbers.
---
 dcf/curves/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 4b8f80a..3c2ce66 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -439,7 +439,7 @@ class DateCurve(Curve):
         if isinstance(domain, DateCurve):
             data = domain
             domain = data.domain
-        elif isinstance(data, DateCurve):
+        if isinstance(data, DateCurve):
             interpolation = interpolation or data.kwargs.interpolation
             origin = data.origin if origin is None else origin
             day_count = day_count or data.kwargs.day_count
-- 
2.43.0


From bfe5f1f4d62745f828478b107c6810daf1240e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:24 +0000
Subject: [PATCH 52/54] fix: curve fits run through the dates of the grid in
 order

Fitting to a grid not given in order solved later points before earlier
ones, so the fitted curve did not reprice the instruments it was fitted
to.  The values still come in the order of the given grid.
---
 dcf/pricer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index ed9ea30..f55d847 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -751,7 +751,7 @@ def _fit_spread(cashflow_list, discount_curve, valuation_date,
         fitting_curve.spread[d] = 0.0
 
     pp_list = tuple(zip(cashflow_list, present_value))
-    for d in fitting_curve.spread.domain:
+    for d in sorted(fitting_curve.spread.domain):
         # prepare products and prices
         # todo: better use sensitivity to current curve point than maturity
         filtered_pp_list = list(p for p in pp_list if max(p[0].domain) <= d)
-- 
2.43.0


From 94619944695986d63b3d5f987072ce27d6faad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:03 +0000
Subject: [PATCH 53/54] fix: bucketed deltas take the grid of the curves
 shifted by default

As documented, the delta grid defaults to the domain of the curve which is
shifted. It was the one of the discount curve, even if that is another one.
---
 dcf/pricer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index f55d847..2ebd635 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -468,7 +468,8 @@ def get_bucketed_delta(cashflow_list, discount_curve, valuation_date=None,
     :param delta_curve: curve (or list of curves) which will be shifted
         (optional; default is **discount_curve**)
     :param delta_grid: grid dates to build partly shifts
-        (optional; default is **delta_curve.domain**)
+        (optional; default is **delta_curve.domain**,
+        the union of all domains for a list of curves)
     :param shift: shift size to derive bpv
         (optional: default is a basis point i.e. `0.0001`)
     :return: `list(float)` - basis point value for each **delta_grid** point
@@ -574,7 +575,12 @@ def get_bucketed_delta(cashflow_list, discount_curve, valuation_date=None,
 
     pv = get_present_value(cashflow_list, discount_curve, valuation_date)
     delta_curve = discount_curve if delta_curve is None else delta_curve
-    delta_grid = delta_grid if delta_grid else sorted(discount_curve.domain)
+
+    if not isinstance(delta_curve, (list, tuple)):
+        delta_curve = delta_curve,
+
+    if not delta_grid:
+        delta_grid = sorted({d for c in delta_curve for d in c.domain})
 
     if len(delta_grid) == 1:
         grids = (delta_grid,)
@@ -590,9 +596,6 @@ def get_bucketed_delta(cashflow_list, discount_curve, valuation_date=None,
         grids = [first] + mids + [last]
         shifts = [[shift, 0.]] + [[0., shift, 0.]] * len(mids) + [[0., shift]]
 
-    if not isinstance(delta_curve, (list, tuple)):
-        delta_curve = delta_curve,
-
     buckets = list()
     for g, s in zip(grids, shifts):
         with _shifted(delta_curve, lambda d: DateCurve(g, s)):
-- 
2.43.0


From 0bca419d4ecdad493efc66d6f9460664149a7f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:55 +0000
Subject: [PATCH 54/54] fix: periods ending at time zero have to meet their
 end, too

---
 dcf/curves/interestratecurve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index 9952d38..07dfda3 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -243,7 +243,7 @@ class InterestRateCurve(RateCurve):
         return self._get_cash_rate(start, stop, step)
 
     def _get_cash_rate(self, start, stop=None, step=None):
-        if stop and step:
+        if stop is not None and step is not None:
             if not start + step == stop:
                 raise AssertionError(
                     "if stop and step given, start+step must meet stop.")
@@ -433,7 +433,7 @@ class CashRateCurve(InterestRateCurve):
         return continuous_rate(df, self.day_count(start, stop))
 
     def _get_cash_rate(self, start, stop=None, step=None):
-        if stop and step:
+        if stop is not None and step is not None:
             if not start + step == stop:
                 raise AssertionError(
                     "if stop and step given, start+step must meet stop.")
-- 
2.43.0

