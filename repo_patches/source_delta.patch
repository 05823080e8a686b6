From e382ba5435693d818b78606a6083b71f839bb4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:37 +0000
Subject: [PATCH 01/93] fix: IdentityLink.dinv_link is a static method and must
 not take self

---
 pystatsm/pyglm2/links.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/links.py b/pystatsm/pyglm2/links.py
index 353571c..d6b4ee6 100644
--- a/pystatsm/pyglm2/links.py
+++ b/pystatsm/pyglm2/links.py
@@ -68,7 +68,7 @@ class IdentityLink(Link):
         return mu
     
     @staticmethod
-    def dinv_link(self, eta):
+    def dinv_link(eta):
         dmu = 0.0*eta+1.0
         return dmu
        
-- 
2.43.0


From 4866edf8b573105496faf09c33a829fb0d1c441a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:37 +0000
Subject: [PATCH 02/93] fix: ProbitLink.d4link calls the nonexistent
 scipy.special.erfinc

---
 pystatsm/pyglm2/links.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/links.py b/pystatsm/pyglm2/links.py
index d6b4ee6..5eb0ea2 100644
--- a/pystatsm/pyglm2/links.py
+++ b/pystatsm/pyglm2/links.py
@@ -201,7 +201,7 @@ class ProbitLink(Link):
     
     @staticmethod
     def d4link(mu):
-        u = sp.special.erfinc(2.0 * mu - 1.0)
+        u = sp.special.erfinv(2.0 * mu - 1.0)
         c = 4.0 * np.sqrt(2.0) * np.pi**2
         g = c * np.exp(4.0 * u**2) * u * (12 * u**2 + 7)
         return g
-- 
2.43.0


From 55b06ac5fb7daa7bed474a31bd5d7bf5f9f5569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:37 +0000
Subject: [PATCH 03/93] fix: sign of PowerLink.d2inv_link

---
 pystatsm/pyglm2/links.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/links.py b/pystatsm/pyglm2/links.py
index 5eb0ea2..771a300 100644
--- a/pystatsm/pyglm2/links.py
+++ b/pystatsm/pyglm2/links.py
@@ -372,7 +372,7 @@ class PowerLink(Link):
         if alpha==0:
             d2mu = np.exp(eta)
         else:
-            d2mu = (alpha - 1.0) * eta**(1/alpha - 2.0) / alpha**2
+            d2mu = (1.0 - alpha) * eta**(1/alpha - 2.0) / alpha**2
         return d2mu
     
     def link(self, mu):
-- 
2.43.0


From 109181624a2624d38ddca764ff8c8cd4d325f7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:37 +0000
Subject: [PATCH 04/93] fix: sign of the second and fourth derivatives of the
 negative binomial link

---
 pystatsm/pyglm2/links.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm2/links.py b/pystatsm/pyglm2/links.py
index 771a300..c1fd4ca 100644
--- a/pystatsm/pyglm2/links.py
+++ b/pystatsm/pyglm2/links.py
@@ -486,7 +486,7 @@ class NegativeBinomialLink(Link):
         return dmu
     
     def d2link(self, mu):
-        a = self.v * (self.v + 2.0 * mu)
+        a = -self.v * (self.v + 2.0 * mu)
         b = mu**2 * (self.v + mu)**2
         return a / b
         
@@ -498,7 +498,7 @@ class NegativeBinomialLink(Link):
     
     def d4link(self, mu):
         v = self.v
-        a = 6.0 * v * (v**3 + 4.0 * v**2 * mu + 6.0 * v * mu**2 + 4.0 * mu**3)
+        a = -6.0 * v * (v**3 + 4.0 * v**2 * mu + 6.0 * v * mu**2 + 4.0 * mu**3)
         b = mu**4 * (mu + v)**4
         return a / b
         
-- 
2.43.0


From e34dfe11a105e1bf9e3f848050846864ac21e0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:41 +0000
Subject: [PATCH 05/93] fix: legacy ProbitLink.d4link calls the nonexistent
 scipy.special.erfinc

---
 pystatsm/pyglm/links.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/links.py b/pystatsm/pyglm/links.py
index 899b071..ad09404 100644
--- a/pystatsm/pyglm/links.py
+++ b/pystatsm/pyglm/links.py
@@ -148,7 +148,7 @@ class ProbitLink(Link):
         return g
     
     def d4link(self, mu):
-        u = sp.special.erfinc(2.0 * mu - 1.0)
+        u = sp.special.erfinv(2.0 * mu - 1.0)
         c = 4.0 * np.sqrt(2.0) * np.pi**2
         g = c * np.exp(4.0 * u**2) * u * (12 * u**2 + 7)
         return g
-- 
2.43.0


From 6a67ebdc41a542b545f6b964a2050a34eca8b383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:41 +0000
Subject: [PATCH 06/93] fix: sign of legacy PowerLink.d2inv_link

---
 pystatsm/pyglm/links.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/links.py b/pystatsm/pyglm/links.py
index ad09404..f44a3fa 100644
--- a/pystatsm/pyglm/links.py
+++ b/pystatsm/pyglm/links.py
@@ -293,7 +293,7 @@ class PowerLink(Link):
         if alpha==0:
             d2mu = np.exp(eta)
         else:
-            d2mu = (alpha - 1.0) * eta**(1/alpha - 2.0) / alpha**2
+            d2mu = (1.0 - alpha) * eta**(1/alpha - 2.0) / alpha**2
         return d2mu
     
     def link(self, mu):
-- 
2.43.0


From f63d917e16c0b3a26655284965fd769e92073660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:41 +0000
Subject: [PATCH 07/93] fix: sign of the second and fourth derivatives of the
 legacy negative binomial link

---
 pystatsm/pyglm/links.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/links.py b/pystatsm/pyglm/links.py
index f44a3fa..e100a58 100644
--- a/pystatsm/pyglm/links.py
+++ b/pystatsm/pyglm/links.py
@@ -399,7 +399,7 @@ class NegativeBinomialLink(Link):
         return dmu
     
     def d2link(self, mu):
-        a = self.v * (self.v + 2.0 * mu)
+        a = -self.v * (self.v + 2.0 * mu)
         b = mu**2 * (self.v + mu)**2
         return a / b
         
@@ -411,7 +411,7 @@ class NegativeBinomialLink(Link):
     
     def d4link(self, mu):
         v = self.v
-        a = 6.0 * v * (v**3 + 4.0 * v**2 * mu + 6.0 * v * mu**2 + 4.0 * mu**3)
+        a = -6.0 * v * (v**3 + 4.0 * v**2 * mu + 6.0 * v * mu**2 + 4.0 * mu**3)
         b = mu**4 * (mu + v)**4
         return a / b
         
-- 
2.43.0


From 1d823a23bdcb60eb4ed99a4767d93ee78fcea5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:38 +0000
Subject: [PATCH 08/93] fix: Gaussian log-likelihood with default weights

---
 pystatsm/pyglm2/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 8a681ee..7db93dd 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -251,7 +251,7 @@ class Gaussian(ExponentialFamily):
         ll = ll / 2.0
         return ll
 
-    def _full_loglike(self, y, mu, weights=None, phi=1.0, dispersion=1.0):
+    def _full_loglike(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
         ll = self._loglike(y, mu, weights, phi, dispersion)
         llf = ll + LN2PI / 2.0
         return llf
-- 
2.43.0


From fb0702a732b852dd5c58d7607c1284b5e03e3a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:38 +0000
Subject: [PATCH 09/93] fix: sign of the inverse Gaussian second scale
 derivative

---
 pystatsm/pyglm2/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 7db93dd..867f7c1 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -408,7 +408,7 @@ class InverseGaussian(ExponentialFamily):
 
     def d2llscale(self, phi, y):
         ls2 = -len(y) / (2.0 * phi**2)
-        return -ls2
+        return ls2
 
     def rvs(self, mu, phi=1.0, rng=None, seed=None):
         rng = np.random.default_rng(seed) if rng is None else rng
-- 
2.43.0


From 2fe1aab1f697be5777e93ac61a786e91398ff39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:38 +0000
Subject: [PATCH 10/93] fix: inverse Gaussian sampling and quantiles use the
 family's mean and scale

---
 pystatsm/pyglm2/families.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 867f7c1..5d5f83d 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -412,10 +412,10 @@ class InverseGaussian(ExponentialFamily):
 
     def rvs(self, mu, phi=1.0, rng=None, seed=None):
         rng = np.random.default_rng(seed) if rng is None else rng
-        return rng.wald(mean=mu, scale=np.sqrt(phi))
+        return rng.wald(mean=mu, scale=1.0/phi)
 
     def ppf(self, q, mu, phi=1.0):
-        return sp.stats.wald(loc=mu, scale=np.sqrt(phi)).ppf(q)
+        return sp.stats.invgauss(mu=mu*phi, scale=1.0/phi).ppf(q)
 
 
 class Gamma(ExponentialFamily):
-- 
2.43.0


From 4dde56fc682450c502678fc4e3320e79f15a4b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:38 +0000
Subject: [PATCH 11/93] fix: Poisson quantiles (scipy's poisson takes no scale)

---
 pystatsm/pyglm2/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 5d5f83d..4e2467b 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -708,7 +708,7 @@ class Poisson(ExponentialFamily):
         return y
 
     def ppf(self, q, mu, scale=1.0):
-        return sp.stats.poisson(mu=mu, scale=np.sqrt(scale)).ppf(q)
+        return sp.stats.poisson(mu=mu).ppf(q)
 
 
 class Binomial(ExponentialFamily):
-- 
2.43.0


From dc604e6d2e47b93dff8e3738899c5f8d5566004b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:38 +0000
Subject: [PATCH 12/93] fix: legacy inverse Gaussian sampling and quantiles use
 the family's mean and scale

---
 pystatsm/pyglm/families.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index 8708ca3..e7162df 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -425,10 +425,10 @@ class InverseGaussian(ExponentialFamily):
 
     def rvs(self, mu, phi=1.0, rng=None, seed=None):
         rng = np.random.default_rng(seed) if rng is None else rng
-        return rng.wald(mean=mu, scale=np.sqrt(phi))
+        return rng.wald(mean=mu, scale=1.0/phi)
 
     def ppf(self, q, mu, phi=1.0):
-        return sp.stats.wald(loc=mu, scale=np.sqrt(phi)).ppf(q)
+        return sp.stats.invgauss(mu=mu*phi, scale=1.0/phi).ppf(q)
 
 
 class Gamma(ExponentialFamily):
-- 
2.43.0


From 770fd2fbed08d20b84af795bf070d1ac23452623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:38 +0000
Subject: [PATCH 13/93] fix: legacy Poisson quantiles (scipy's poisson takes no
 scale)

---
 pystatsm/pyglm/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index e7162df..8a35018 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -758,7 +758,7 @@ class Poisson(ExponentialFamily):
         return y
 
     def ppf(self, q, mu, scale=1.0):
-        return sp.stats.poisson(mu=mu, scale=np.sqrt(scale)).ppf(q)
+        return sp.stats.poisson(mu=mu).ppf(q)
 
 
 class Binomial(ExponentialFamily):
-- 
2.43.0


From ad3b0c006d7314c4812bfe2039cf1a6b37d17a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:38 +0000
Subject: [PATCH 14/93] fix: signed residuals honour the weights

---
 pystatsm/pyglm2/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 4e2467b..a5e92d8 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -116,7 +116,7 @@ class ExponentialFamily(metaclass=ABCMeta):
         return chi2
 
     def signed_resid(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
-        d = self.deviance(y, mu=mu, phi=phi, dispersion=dispersion)
+        d = self.deviance(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         r_s = np.sign(y - mu) * np.sqrt(d)
         return r_s
 
-- 
2.43.0


From 019cbceba5582b1eeb30b1f38723a42fb312ceb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:38 +0000
Subject: [PATCH 15/93] fix: legacy Pearson and signed residuals honour the
 weights

---
 pystatsm/pyglm/families.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index 8a35018..8bdf50b 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -77,7 +77,7 @@ class ExponentialFamily(object):
         weights = self.weights if weights is None else weights
         y, mu = self.cshape(y, mu)
         V = self.var_func(mu=mu, dispersion=dispersion)
-        w = np.sqrt(self.weights / V)
+        w = np.sqrt(weights / V)
         r_p = w * (y - mu)
         return r_p
     
@@ -98,7 +98,7 @@ class ExponentialFamily(object):
     def signed_resid(self, y, eta=None, mu=None, T=None, phi=1.0, dispersion=1.0, weights=None):
         mu = self._to_mean(eta=eta, T=T) if mu is None else mu
         y, mu = self.cshape(y, mu)
-        d = self.deviance(y, mu=mu, phi=phi, dispersion=dispersion)
+        d = self.deviance(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         r_s = np.sign(y - mu) * np.sqrt(d)
         return r_s
 
-- 
2.43.0


From aa671c1c5e9852439689f82c12caaf1b55ab9bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:38 +0000
Subject: [PATCH 16/93] fix: second derivative of the Gaussian canonical
 parameter is zero

---
 pystatsm/pyglm/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index 8bdf50b..bc1c4b5 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -269,7 +269,7 @@ class Gaussian(ExponentialFamily):
         return V
     
     def d2canonical(self, mu, dispersion=1.0):
-        res = 0.0*mu+1.0
+        res = 0.0*mu
         return res
 
     def deviance(self, y, weights=None, T=None, mu=None, eta=None, phi=1.0, dispersion=1.0):
-- 
2.43.0


From 030d4b0ed677440cf6346c318e95a4f436da3f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:38 +0000
Subject: [PATCH 17/93] fix: canonical parameter of the inverse Gaussian agrees
 with its mean function

---
 pystatsm/pyglm/families.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index bc1c4b5..be9dc5c 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -351,7 +351,7 @@ class InverseGaussian(ExponentialFamily):
         return llf
 
     def canonical_parameter(self, mu, dispersion=1.0):
-        T = 1.0 / (np.power(mu, 2.0))
+        T = -1.0 / (2.0 * np.power(mu, 2.0))
         return T
 
     def cumulant(self, T, dispersion=1.0):
@@ -368,7 +368,7 @@ class InverseGaussian(ExponentialFamily):
         return V
 
     def d2canonical(self, mu, dispersion=1.0):
-        res = 3.0 / (np.power(mu, 4))
+        res = -3.0 / (np.power(mu, 4))
         return res
 
     def deviance(self, y, weights=None, T=None, mu=None, eta=None, phi=1.0, dispersion=1.0):
-- 
2.43.0


From 31bf29a19f2d552e666140180b1e8de966773b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:38 +0000
Subject: [PATCH 18/93] fix: negative binomial cumulant and mean function agree
 with its canonical parameter

---
 pystatsm/pyglm/families.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index be9dc5c..45fa2aa 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -572,12 +572,12 @@ class NegativeBinomial(ExponentialFamily):
         return T
 
     def cumulant(self, T, dispersion=1.0):
-        b = (-1.0 / dispersion) * np.log(1 - dispersion * np.exp(T))
+        b = (-1.0 / dispersion) * np.log(1 - np.exp(T))
         return b
 
     def mean_func(self, T, dispersion=1.0):
         u = np.exp(T)
-        mu = -1.0 / dispersion * (u / (1 - u))
+        mu = 1.0 / dispersion * (u / (1 - u))
         return mu
 
     def var_func(self, T=None, mu=None, eta=None, dispersion=1.0):
-- 
2.43.0


From ed99b7e9ac1b626dac17eaaf73ea33eaf3f363f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:12 +0000
Subject: [PATCH 19/93] fix: expected curvature counted the prior weights twice

---
 pystatsm/pyglm2/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index a5e92d8..6d3c5f0 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -171,7 +171,7 @@ class ExponentialFamily(metaclass=ABCMeta):
     def get_ehw(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
         den = self.variance(mu=mu, weights=weights, phi=phi, dispersion=dispersion) 
         den = den * self.dlink(mu)**2
-        w = weights / den
+        w = 1.0 / den
         return w
 
     def da_dmu(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-- 
2.43.0


From 389e1bff46ffe518ae7356e108b0accdb4ad2823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:12 +0000
Subject: [PATCH 20/93] fix: working response and working weight call the
 existing curvature factor

---
 pystatsm/pyglm2/families.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 6d3c5f0..174ab7d 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -158,11 +158,11 @@ class ExponentialFamily(metaclass=ABCMeta):
         return a
 
     def get_g(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
-        g = self.dlink(mu) / self._get_a(y=y, mu=mu, phi=phi, dispersion=dispersion)
+        g = self.dlink(mu) / self.get_a(y=y, mu=mu, phi=phi, dispersion=dispersion)
         return g
     
     def get_w(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
-        a = self._get_a(y=y, mu=mu, weights=weights, phi=phi, dispersion=dispersion)
+        a = self.get_a(y=y, mu=mu, weights=weights, phi=phi, dispersion=dispersion)
         v = self.var_func(mu, dispersion)
         dmu = self.dlink(mu)
         res = a / (dmu**2 * v)
-- 
2.43.0


From 00d4ef1cc4a9f0ca675cc04825b65260fdc592d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:12 +0000
Subject: [PATCH 21/93] fix: derivatives of the working weights call a
 nonexistent argument check

---
 pystatsm/pyglm2/families.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 174ab7d..2ee70b9 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -175,7 +175,6 @@ class ExponentialFamily(metaclass=ABCMeta):
         return w
 
     def da_dmu(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-        y, mu, weights = self._check_args(**dict(y=y, mu=mu, weights=weights, **kwargs))
         V0, V1, V2 = self.var_derivs(mu, dispersion, 2)
         g1, g2, g3 = self.dlink(mu), self.d2link(mu), self.d3link(mu)
         u = (V1 / V0 + g2 / g1)
@@ -184,7 +183,6 @@ class ExponentialFamily(metaclass=ABCMeta):
         return res
 
     def d2a_dmu2(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-        y, mu, weights = self._check_args(**dict(y=y, mu=mu, weights=weights, **kwargs))
         V0, V1, V2, V3 = self.var_derivs(mu, dispersion, 3)
         g1 = self.dlink(mu)
         g2 = self.d2link(mu)
@@ -197,7 +195,6 @@ class ExponentialFamily(metaclass=ABCMeta):
         return res
 
     def dw_deta(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-        y, mu, weights = self._check_args(**dict(y=y, mu=mu, weights=weights, **kwargs))
         a0 = self.get_a(y=y, mu=mu, dispersion=dispersion)
         a1 = self.da_dmu(y=y, mu=mu, dispersion=dispersion)
         w = self.get_w(y=y, mu=mu, dispersion=dispersion)
@@ -207,7 +204,6 @@ class ExponentialFamily(metaclass=ABCMeta):
         return res
 
     def d2w_deta2(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-        y, mu, weights = self._check_args(**dict(y=y, mu=mu, weights=weights, **kwargs))
         V0, V1, V2, V3 = self.var_derivs(mu, dispersion, 3)
         g1, g2, g3, g4 = self.dlink(mu), self.d2link(mu), self.d3link(mu), self.d4link(mu)
         g21 = g2 / g1
-- 
2.43.0


From 04d66e372abe5965bd695a969ff881b2bfb19c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:20 +0000
Subject: [PATCH 22/93] fix: GLM moment scale estimate ignored the prior
 weights in likelihood and Hessian

---
 pystatsm/pyglm2/glm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 4834eb5..50939a5 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -135,7 +135,8 @@ class GLM(RegressionMixin, LikelihoodModel):
             dispersion = 1.0
 
         if scale_estimator == "M":
-            phi = f.pearson_chi2(y, mu=mu, dispersion=dispersion) / (X.shape[0] - X.shape[1])
+            phi = f.pearson_chi2(y, mu=mu, dispersion=dispersion, weights=weights) \
+                / (X.shape[0] - X.shape[1])
         elif scale_estimator != "NR":
             phi = 1.0
         return X, y, weights, mu, beta, phi, tau, dispersion
-- 
2.43.0


From 38582fcced3b31d35c92ea7ec00e8f57057dc40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:20 +0000
Subject: [PATCH 23/93] fix: negative binomial GLM cross Hessian ignored the
 prior weights

---
 pystatsm/pyglm2/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 50939a5..bb6a6b4 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -216,7 +216,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         gw, hw = f.get_ghw(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         H = np.dot((X * hw.reshape(-1, 1)).T, X)
         if isinstance(f, NegativeBinomial) or f.name=="NegativeBinomial":
-            dbdt = -np.dot(X.T, dispersion * (y - mu) /
+            dbdt = -np.dot(X.T, weights * dispersion * (y - mu) /
                            ((1 + dispersion * mu)**2 * f.dlink(mu)))
         else:
             dbdt = np.dot(X.T, gw)
-- 
2.43.0


From c594befb11ba032737fc8a39c796023c8b7b2968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:20 +0000
Subject: [PATCH 24/93] fix: GLM leverage and residuals ignored the prior
 weights

---
 pystatsm/pyglm2/glm.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index bb6a6b4..edb6b0b 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -325,13 +325,17 @@ class GLM(RegressionMixin, LikelihoodModel):
             phi = 1.0
         self.phi = phi
         self.dispersion = dispersion
-        WX = X * np.sqrt(f.get_ehw(y, mu, phi=phi, dispersion=dispersion).reshape(-1, 1))
+        WX = X * np.sqrt(f.get_ehw(y, mu, phi=phi, dispersion=dispersion,
+                                      weights=weights).reshape(-1, 1))
         h = self._compute_leverage_qr(WX)
 
         self.resid_raw = y - mu
-        self.resid_pearson = self.f.pearson_resid(y, mu=mu, phi=1.0, dispersion=dispersion)
-        self.resid_deviance = self.f.deviance_resid(y, mu=mu, phi=1.0, dispersion=dispersion)
-        self.resid_signed = self.f.signed_resid(y, mu=mu, phi=1.0, dispersion=dispersion)
+        self.resid_pearson = self.f.pearson_resid(y, mu=mu, phi=1.0, dispersion=dispersion,
+                                                  weights=weights)
+        self.resid_deviance = self.f.deviance_resid(y, mu=mu, phi=1.0, dispersion=dispersion,
+                                                    weights=weights)
+        self.resid_signed = self.f.signed_resid(y, mu=mu, phi=1.0, dispersion=dispersion,
+                                                weights=weights)
 
         self.resid_pearson_s = self.resid_pearson / np.sqrt(phi)
         self.resid_pearson_sst = self.resid_pearson_s / np.sqrt(1 - h)
-- 
2.43.0


From 8f55a5914f2eb3bf9e49a719453981347c361913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:20 +0000
Subject: [PATCH 25/93] fix: GLM null log-likelihood ignored the prior weights
 when estimating the null mean

---
 pystatsm/pyglm2/glm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index edb6b0b..01a2730 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -373,12 +373,13 @@ class GLM(RegressionMixin, LikelihoodModel):
         self.llf = self.f.full_loglike(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         if self.f.name == "NegativeBinomial":
             opt_null = self._optimize(t_init=np.zeros(
-                2), data=(np.ones((self.n, 1)), self.y, 1.0))
+                2), data=(np.ones((self.n, 1)), self.y, weights))
             self.lln = self.full_loglike(
                 opt_null.x, data=(np.ones((self.n, 1)), self.y, weights))
         else:
             self.lln = self.f.full_loglike(
-                y, mu=np.ones(mu.shape[0])*y.mean(), phi=phi, weights=weights)
+                y, mu=np.ones(mu.shape[0])*(np.sum(weights * y) / np.sum(weights * np.ones_like(y))),
+                phi=phi, weights=weights)
 
         k = len(self.params)
         sumstats = {}
-- 
2.43.0


From 2478fe871bb5aa10502dd2e9d7ef763656c51290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:20 +0000
Subject: [PATCH 26/93] fix: GLM robust standard errors dropped the model
 weights

---
 pystatsm/pyglm2/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 01a2730..423090e 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -424,7 +424,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         
     def get_robust_res(self, grad_kws=None):
         default_kws = dict(params=self.params,
-                           data=(self.X, self.y, self.f.weights), 
+                           data=(self.X, self.y, self.model_data.weights),
                            scale_estimator=self.scale_estimator,
                            f=self.f)
         grad_kws = handle_default_kws(grad_kws, default_kws)
-- 
2.43.0


From 58b0bc3de944aa042f219cd6eb8d6a6738cde6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:20 +0000
Subject: [PATCH 27/93] fix: GLM prediction intervals called the family
 quantile with an unknown argument

---
 pystatsm/pyglm2/glm.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 423090e..9115341 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -467,11 +467,16 @@ class GLM(RegressionMixin, LikelihoodModel):
 
         if predicted_ci:
             predicted_ci_level = symmetric_conf_int(predicted_ci_level)
-            v = f.variance(mu=mu, phi=phi, dispersion=dispersion)
+            if f.name == "NegativeBinomial":
+                ppf_kws = dict(dispersion=dispersion)
+            elif f.name in ["Binomial", "Poisson"]:
+                ppf_kws = {}
+            else:
+                ppf_kws = dict(phi=phi)
             res["predicted_lower_ci"] = f.ppf(
-                1-predicted_ci_level, mu=mu, scale=v)
+                1-predicted_ci_level, mu=mu, **ppf_kws)
             res["predicted_upper_ci"] = f.ppf(
-                predicted_ci_level, mu=mu, scale=v)
+                predicted_ci_level, mu=mu, **ppf_kws)
         return res
     
     def _jacknife(self, method="optimize", verbose=True):
-- 
2.43.0


From 56fa4c980c7d800d37f8887036bad3dddae83445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:20 +0000
Subject: [PATCH 28/93] fix: GLM one-step jackknife used squared working
 weights, the wrong leverage power and dropped the model weights

---
 pystatsm/pyglm2/glm.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 9115341..c61115f 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -418,7 +418,7 @@ class GLM(RegressionMixin, LikelihoodModel):
 
     
     def _one_step_approx(self, WX, h, rp):
-        y = rp / np.sqrt(1 - h)
+        y = rp / (1 - h)
         db = WX.dot(np.linalg.inv(np.dot(WX.T, WX))) * y.reshape(-1, 1)
         return db
         
@@ -480,10 +480,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         return res
     
     def _jacknife(self, method="optimize", verbose=True):
-        if type(self.f.weights) is np.ndarray:
-            weights = self.f.weights
-        else:
-            weights = np.ones(self.n_obs)
+        weights = self.model_data.weights * np.ones(self.n_obs)
         if method == "optimize":
             jacknife_samples = np.zeros((self.n_obs, self.n_params))
             ii = np.ones(self.n_obs, dtype=bool)
@@ -501,7 +498,7 @@ class GLM(RegressionMixin, LikelihoodModel):
             w = self.f.get_ehw(self.y, self.mu, phi=self.phi,
                                dispersion=self.dispersion,
                                weights=weights).reshape(-1, 1)
-            WX = self.X * w
+            WX = self.X * np.sqrt(w)
             h = self._compute_leverage_qr(WX)
             one_step = self._one_step_approx(WX, h, self.resid_pearson_s)
             jacknife_samples = self.params.reshape(1, -1) - one_step
-- 
2.43.0


From 3529b8a4eed009d02fc4a2ff1c46ebbaeb9b698d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:20 +0000
Subject: [PATCH 29/93] fix: GLM bootstrap dropped the model weights

---
 pystatsm/pyglm2/glm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index c61115f..07bf4f5 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -510,8 +510,7 @@ class GLM(RegressionMixin, LikelihoodModel):
     def _bootstrap(self, n_boot=1000, verbose=True, return_info=False, rng=None):
         rng = np.random.default_rng() if rng is None else rng 
         n, q = self.n_obs, self.n_params
-        weights = self.f.weights
-        w = weights if type(weights) is np.ndarray else np.ones(n)
+        w = self.model_data.weights * np.ones(n)
         X, y = self.X, self.y
         pbar = tqdm.tqdm(total=n_boot, smoothing=1e-6) if verbose else None
         boot_samples = np.zeros((n_boot, q))
-- 
2.43.0


From be171ec85397493c3d286267de582c967653821e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 30/93] fix: CLM Hessians apply the prior weights to every term

---
 pystatsm/pyglm2/clm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm2/clm.py b/pystatsm/pyglm2/clm.py
index 4bb7ea9..dea3cd1 100644
--- a/pystatsm/pyglm2/clm.py
+++ b/pystatsm/pyglm2/clm.py
@@ -261,8 +261,8 @@ class CLM(RegressionMixin, LikelihoodModel):
         
         w3 =  w / prob**2
         dprob = (B1 * d1eta1[:, None]) - (B2 * d1eta2[:, None])
-        T0 = (B1 * (d2eta1 / prob)[:, None]).T.dot(B1)
-        T1 = (B2 * (d2eta2 / prob)[:, None]).T.dot(B2)
+        T0 = (B1 * (w * d2eta1 / prob)[:, None]).T.dot(B1)
+        T1 = (B2 * (w * d2eta2 / prob)[:, None]).T.dot(B2)
         T2 = (dprob * w3[:, None]).T.dot(dprob)
         H = -(T0 - T1 - T2)
         g = -np.dot(dprob[:, :q].T, w / prob)
@@ -298,8 +298,8 @@ class CLM(RegressionMixin, LikelihoodModel):
         
         w3 =  w / prob**2
         dprob = (B1 * d1eta1[:, None]) - (B2 * d1eta2[:, None])
-        T0 = (B1 * (d2eta1 / prob)[:, None]).T.dot(B1)
-        T1 = (B2 * (d2eta2 / prob)[:, None]).T.dot(B2)
+        T0 = (B1 * (w * d2eta1 / prob)[:, None]).T.dot(B1)
+        T1 = (B2 * (w * d2eta2 / prob)[:, None]).T.dot(B2)
         T2 = (dprob * w3[:, None]).T.dot(dprob)
         H = -(T0 - T1 - T2)
         return H
-- 
2.43.0


From 086f8404b98bcfebac032930e6a182152e33234e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 31/93] fix: CLM.fit passes method and opt_kws to the
 optimizer, not as parameters and data

---
 pystatsm/pyglm2/clm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/clm.py b/pystatsm/pyglm2/clm.py
index dea3cd1..2828b6b 100644
--- a/pystatsm/pyglm2/clm.py
+++ b/pystatsm/pyglm2/clm.py
@@ -333,7 +333,10 @@ class CLM(RegressionMixin, LikelihoodModel):
         return params, opt
     
     def fit(self, method=None, opt_kws=None):
-        self.params, self.opt = self._fit(method, opt_kws)
+        opt_kws = {} if opt_kws is None else opt_kws
+        if method is not None:
+            opt_kws = {**opt_kws, "method":method}
+        self.params, self.opt = self._fit(opt_kws=opt_kws)
         n, n_params = self.n, len(self.params)
         q = self.q
         self.n_params = n_params
-- 
2.43.0


From 2ca54702caca2a6c9e47f4476c6b1331aab2720d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 32/93] fix: CLM._jacknife uses the CLM's own data, fit and
 gradient

---
 pystatsm/pyglm2/clm.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/pystatsm/pyglm2/clm.py b/pystatsm/pyglm2/clm.py
index 2828b6b..8635c26 100644
--- a/pystatsm/pyglm2/clm.py
+++ b/pystatsm/pyglm2/clm.py
@@ -454,30 +454,25 @@ class CLM(RegressionMixin, LikelihoodModel):
         return linpred, prob, cumulative_prob
         
     def _jacknife(self, method="optimize", verbose=True):
-        if type(self.f.weights) is np.ndarray:
-            weights = self.f.weights
-        else:
-            weights = np.ones(self.n_obs)
         if method == "optimize":
             jacknife_samples = np.zeros((self.n_obs, self.n_params))
             ii = np.ones(self.n_obs, dtype=bool)
+            B1, B2, o1, o2, o1ix, w = self.model_data
+            params = OrderedTransform._fwd(self.params.copy(), self.q)
             pbar = tqdm.tqdm(total=self.n_obs) if verbose else None
             for i in range(self.n_obs):
                 ii[i] = False
-                opt = self._optimize(data=(self.X[ii], self.y[ii], weights[ii]), f=self.f)
-                jacknife_samples[i] = opt.x
+                params_i, _ = self._fit(params=params.copy(), 
+                                        data=(B1[ii], B2[ii], o1[ii], o2[ii],
+                                              o1ix[ii], w[ii]))
+                jacknife_samples[i] = params_i
                 ii[i] = True
                 if verbose:
                     pbar.update(1)
             if verbose:
                 pbar.close()
         elif method == "one-step":    
-            w = self.f.get_ehw(self.y, self.mu, phi=self.phi,
-                               dispersion=self.dispersion,
-                               weights=weights).reshape(-1, 1)
-            WX = self.X * w
-            h = self._compute_leverage_qr(WX)
-            one_step = self._one_step_approx(WX, h, self.resid_pearson_s)
+            one_step = -self.gradient_i(self.params).dot(self.params_cov)
             jacknife_samples = self.params.reshape(1, -1) - one_step
         jacknife_samples = pd.DataFrame(jacknife_samples, index=self.xinds,
                                         columns=self.param_labels)
-- 
2.43.0


From 8a8e125d60e96e6938d81af7b55480356d98e73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 33/93] fix: zero-inflated Poisson log-likelihood uses log(y!),
 not log((y-1)!)

---
 pystatsm/pyglm2/zinf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index 0d45188..00058d9 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -58,7 +58,7 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         ll[ix] = -w[ix] * np.log(mu2[ix] + (1 - mu2[ix]) * np.exp(-mu1[ix]))
         ix = ~ix
         ll[ix] = -w[ix] * (np.log(1 - mu2[ix]) + y[ix] * np.log(mu1[ix]) \
-                          - mu1[ix] - sp.special.gammaln(y[ix]))
+                          - mu1[ix] - sp.special.gammaln(y[ix] + 1.0))
         return ll
     
     def loglike_i(self, params, data=None, link=None, zero_link=None):
@@ -79,7 +79,7 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         ix = ~ix
         ll = ll + np.sum(-w[ix] * (np.log(1 - omega[ix]) \
                          + y[ix] * np.log(lambd[ix]) - lambd[ix]\
-                         - sp.special.gammaln(y[ix])))
+                         - sp.special.gammaln(y[ix] + 1.0)))
 
         return ll
     
-- 
2.43.0


From e3e198b1ac833e3ea8b9ac514601780831c529e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 34/93] fix: zero-inflated Poisson gradients weight the whole
 inflation score

---
 pystatsm/pyglm2/zinf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index 00058d9..d76c652 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -118,7 +118,7 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         
         # Compute the gradient for the Bernoulli part
         u_bernoulli = np.zeros(len(y))
-        u_bernoulli[ix_zero] = -(w[ix_zero] * h1 - h1 * exlam[ix_zero]) / den
+        u_bernoulli[ix_zero] = -w[ix_zero] * (h1 - h1 * exlam[ix_zero]) / den
         u_bernoulli[~ix_zero] = w[~ix_zero] * zero_link.dinv_link(omega_lp[~ix_zero]) / (1.0 - omega[~ix_zero])
         g_bernoulli = np.dot(Z.T, u_bernoulli)         # FLOPs: n_bernoulli_params * len(y)
         
@@ -163,7 +163,7 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         t1 = t0 * exlam[ix]
         h1 = zero_link.dinv_link(omega_lp[ix])
         gw1 =  (w[ix] * t1 * link.dinv_link(lambda_lp[ix])) / (t1 + omega[ix]) 
-        gw2 = -(w[ix] * h1 - h1 * exlam[ix]) / (t1 + omega[ix])
+        gw2 = -w[ix] * (h1 - h1 * exlam[ix]) / (t1 + omega[ix])
 
         g[i1, j1] = X[ix] * (gw1)[:, None]
         g[i1, j2] = Z[ix] * (gw2)[:, None]
-- 
2.43.0


From e280f6b080624b66377eaa892f7ff0bb440f31a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 35/93] fix: zinf imports ExponentialFamily, which
 ZeroInflatedModel uses

---
 pystatsm/pyglm2/zinf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index d76c652..9ffc41c 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -17,7 +17,7 @@ from .likelihood_model import LikelihoodModel
 from .links import (CloglogLink, IdentityLink, Link, LogitLink, LogLink, #analysis:ignore
                     LogComplementLink, NegativeBinomialLink, ProbitLink,
                     PowerLink)
-from .families import NegativeBinomial
+from .families import ExponentialFamily, NegativeBinomial
 from ..utilities.func_utils import symmetric_conf_int, handle_default_kws
 
 from ..utilities.linalg_operations import wdiag_outer_prod, wls_qr, nwls   
-- 
2.43.0


From 97394327f46529ec926af60379748a04dc6b9c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 36/93] fix: zero-inflated negative binomial prediction limits
 use the dispersion, not the variance

---
 pystatsm/pyglm2/zinf.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index 9ffc41c..01f99a4 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -1089,11 +1089,10 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
                               ]).T
         if predicted_ci:
              predicted_ci_level = symmetric_conf_int(predicted_ci_level)
-             v = f.variance(mu=mu1, phi=1.0, dispersion=k)
              res["predicted_lower_ci"] = f.ppf(
-                 1-predicted_ci_level, mu=mu1, dispersion=v)
+                 1-predicted_ci_level, mu=mu1, dispersion=k)
              res["predicted_upper_ci"] = f.ppf(
-                 predicted_ci_level, mu=mu1, dispersion=v)
+                 predicted_ci_level, mu=mu1, dispersion=k)
         return res  
 
     def predict(self, X=None, Z=None, params=None, params_cov=None, **kws):
-- 
2.43.0


From f8a20fe9fa8dcfdc75d025e5266f7455adcfa9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 37/93] fix: zero-inflated negative binomial applies prior
 weights consistently (ll_i = -w_i log p_i)

---
 pystatsm/pyglm2/zinf.py | 91 ++++++++++++++++++-----------------------
 1 file changed, 40 insertions(+), 51 deletions(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index 01f99a4..827a311 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -524,7 +524,7 @@ class ZeroInflatedModel(RegressionMixin, LikelihoodModel):
         ll = np.zeros(len(y), dtype=params.dtype)
         
         i = y==0
-        ll[i] = -np.log(mu2[i]+(1-mu2[i])*np.exp(lnp[i]))
+        ll[i] = -w[i] * np.log(mu2[i]+(1-mu2[i])*np.exp(lnp[i] / w[i]))
         i=~i
         ll[i] = -lnp[i] - np.log(1.0 - mu2[i]) * w[i]
         return ll
@@ -566,9 +566,9 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         mu1, mu2 = f.inv_link(eta1), link.inv_link(eta2)
         ll = np.zeros(len(y),dtype=params.dtype)
         ix = y==0
-        ll[ix] = - np.log(mu2[ix] + (1-mu2[ix]) * (1 + k / w[ix] * mu1[ix])**(-w[ix] / k))
+        ll[ix] = -w[ix] * np.log(mu2[ix] + (1-mu2[ix]) * (1 + k * mu1[ix])**(-1.0 / k))
         ix = ~ix
-        ll[ix] = f._loglike(y[ix], weights=w[ix], mu=mu1[ix], phi=1.0, dispersion=k) -np.log(1.0 - mu2[ix])  
+        ll[ix] = f._full_loglike(y[ix], weights=w[ix], mu=mu1[ix], phi=1.0, dispersion=k) - w[ix] * np.log(1.0 - mu2[ix])  
         return ll
     
     def loglike_i(self, params, data=None, link=None, f=None):
@@ -586,9 +586,9 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
       mu1, mu2 = f.inv_link(eta1), link.inv_link(eta2)
       ll = np.zeros(len(y), dtype=params.dtype)
       ix = y==0
-      ll[ix] = - np.log(mu2[ix] + (1-mu2[ix]) * (1 + k / w[ix] * mu1[ix])**(-w[ix] / k))
+      ll[ix] = -w[ix] * np.log(mu2[ix] + (1-mu2[ix]) * (1 + k * mu1[ix])**(-1.0 / k))
       ix = ~ix
-      ll[ix] = f._full_loglike(y[ix], weights=w[ix], mu=mu1[ix], phi=1.0, dispersion=k) -np.log(1.0 - mu2[ix]) 
+      ll[ix] = f._full_loglike(y[ix], weights=w[ix], mu=mu1[ix], phi=1.0, dispersion=k) - w[ix] * np.log(1.0 - mu2[ix]) 
       return np.sum(ll)
     
     def loglike(self, params, data=None, link=None, f=None):
@@ -619,16 +619,15 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         x0 = mu1[i]
         x1 = mu2[i]
         x2 = x0 * k
-        x3 = 1.0 * w[i] + x2
-        x4 = x3 / w[i]
-        x5 = w[i] / k
-        x6 = x4 ** x5
+        x3 = 1.0 + x2
+        x5 = 1.0 / k
+        x6 = x3 ** x5
         x7 = 1.0 / (x1 * x6 - x1 + 1.0)
         x8 = x7 * (x1 - 1.0) / x3
         
         d0[i] = -w[i] * x8 * f.dinv_link(eta1[i])
-        d1[i] = x7 * (x6 - 1.0) *  link.dinv_link(eta2[i])
-        d2[i] = x5 * x8 * (-x2 + x3 * np.log(x4))
+        d1[i] = w[i] * x7 * (x6 - 1.0) *  link.dinv_link(eta2[i])
+        d2[i] = w[i] * x5 * x8 * (-x2 + x3 * np.log(x3))
         
         i = y != 0
         
@@ -644,7 +643,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         #x9 = np.log(x3) +  sp.special.polygamma(0, x6) - sp.special.polygamma(0, x6 * x8)
         x9 = np.log(x3) +  sp.special.digamma(x6) - sp.special.digamma(x6 * x8)
         d0[i] = x4 * (x0 - y[i]) *  f.dinv_link(eta1[i]) / x0
-        d1[i] = link.dinv_link(eta2[i]) / (x5 - 1.0)
+        d1[i] = w[i] * link.dinv_link(eta2[i]) / (x5 - 1.0)
         d2[i] = -x4 * x6 * (-x2 * x8 + x3 * x7 + x3 * x9)
                                
         g1 = np.dot(X.T, d0)
@@ -682,10 +681,10 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         i = y == 0
         
         x0 = mu1[i]
-        x1 = 1.0 + x0*k/w[i]
+        x1 = 1.0 + x0*k
         x2 = 1/x1
         x3 = mu2[i]
-        x4 = w[i]*(1/k)
+        x4 = 1/k
         x5 = x1**(-x4)
         x6 = x5*(1.0 - x3)
         x7 = 1/(x3 + x6)
@@ -729,21 +728,19 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         x0 = mu1[i]
         x1 = dmu1[i]
         x2 = k
-        x3 = 1/w[i]
-        x4 = (1/k)
-        x5 = w[i]*x4
+        x5 = 1/k
         x6 = x5 + y[i]
-        x7 = x0*x2*x3 + 1
+        x7 = x0*x2 + 1
         x8 = 1/x7
         x9 = mu2[i]
-        d0[i] += x1*x2*x3*x6*x8 - x1*y[i]/x0
+        d0[i] += x1*x2*x6*x8 - x1*y[i]/x0
         d1[i] += dmu2[i]/(1 - x9)
-        d2[i] += w[i]*x4*sp.special.polygamma(0, x6) + x0*x2*x3*x6*x8 - \
+        d2[i] += x5*sp.special.polygamma(0, x6) + x0*x2*x6*x8 - \
                 x5*np.log(x7) - x5*sp.special.polygamma(0, x5) - y[i]
                                        
-        g1 = d0.reshape(-1, 1) * X
-        g2 = d1.reshape(-1, 1) * Z
-        g3 = d2.reshape(-1, 1)
+        g1 = (w * d0).reshape(-1, 1) * X
+        g2 = (w * d1).reshape(-1, 1) * Z
+        g3 = (w * d2).reshape(-1, 1)
         gradient = np.concatenate([g1, g2, g3], axis=1)
         return gradient
         
@@ -777,15 +774,13 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         
         x0 = mu1[i]
         x1 = d1mu1[i]
-        x2 = 1 / w[i]
-        x3 = k
-        x4 = x2 * x3
+        x4 = k
         x5 = x0 * x4 + 1.0
         x6 = 1.0 / x5
         x7 = x1 * x1 * x6
         x8 = mu2[i]
         x9 = x8 - 1.0
-        x10 = w[i] / k
+        x10 = 1.0 / k
         x11 = x5 ** - x10
         x12 = x11 * x9
         x13 = 1.0 / (x8 - x12)
@@ -802,7 +797,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         
         h0[0,i] = x15 * (x14 * x7 + x4 * x7 + x7 - d2mu1[i])
         h0[1,i] = x1 * x17 * x19 * x6
-        h0[2,i] = x1 * x15 * (x0 *x2 * x3 * x6 - x14  * x22 - x22)
+        h0[2,i] = x1 * x15 * (x0 * x4 * x6 - x14  * x22 - x22)
         h0[3,i] = x16 * (x16 * x18 * x18 - d2mu2[i])
         h0[4,i] = -x17 * x19 * x22
         h0[5,i] = x14 * (x0 * x0 * x4 / (x5 * x5) + x14 * x23 + x20 - x21 + x23)
@@ -815,29 +810,27 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         x3 = d1mu1[i]
         x4 = x3**2
         x5 = k
-        x6 = 1/w[i]
-        x7 = w[i] / k
+        x7 = 1.0 / k
         x8 = x7 + y[i]
-        x9 = x0*x5*x6
+        x9 = x0*x5
         x10 = x9 + 1
         x11 = 1/x10
-        x12 = w[i]**2
         x13 = 2 * np.log(k)
-        x14 = x8 * np.exp(x13)/x12
+        x14 = x8 * np.exp(x13)
         x15 = x14 / x10**2
         x16 = x0 * x11
         x17 = mu2[i]
         x18 = 1/(x17 - 1)
-        x19 = x12 * np.exp(-x13)
+        x19 = np.exp(-x13)
         
-        h1[0, i] = x1 * x11 * x5 * x6 * x8 - x15 * x4 + x4 * y[i] / x2 - x1 * y[i] / x0
-        h1[2, i] = x11 * x3 * (x5 * x6 * x8 - x14 * x16 - 1)
+        h1[0, i] = x1 * x11 * x5 * x8 - x15 * x4 + x4 * y[i] / x2 - x1 * y[i] / x0
+        h1[2, i] = x11 * x3 * (x5 * x8 - x14 * x16 - 1)
         h1[3, i] = x18 * (x18 * d1mu2[i]**2 -  d2mu2[i])
         h1[5, i] = x11 * x8 * x9 - x15 * x2 - 2 * x16 + x19 * sp.special.polygamma(1, x7) \
             - x19 * sp.special.polygamma(1, x8) + x7 * np.log(x10) +\
                 x7 * sp.special.polygamma(0, x7) - x7 * sp.special.polygamma(0, x8)
                 
-        h = h0 + h1        
+        h = (h0 + h1) * w
       
         h00 = np.einsum("ij,ik->ijk", X*h[[0]].T, X)
         h10 = np.einsum("ij,ik->ijk", Z*h[[1]].T, X)
@@ -887,15 +880,13 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         
         x0 = mu1[i]
         x1 = d1mu1[i]
-        x2 = 1 / w[i]
-        x3 = k
-        x4 = x2 * x3
+        x4 = k
         x5 = x0 * x4 + 1.0
         x6 = 1.0 / x5
         x7 = x1 * x1 * x6
         x8 = mu2[i]
         x9 = x8 - 1.0
-        x10 = w[i] / k
+        x10 = 1.0 / k
         x11 = x5 ** - x10
         x12 = x11 * x9
         x13 = 1.0 / (x8 - x12)
@@ -912,7 +903,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         
         h0[0,i] = x15 * (x14 * x7 + x4 * x7 + x7 - d2mu1[i])
         h0[1,i] = x1 * x17 * x19 * x6
-        h0[2,i] = x1 * x15 * (x0 *x2 * x3 * x6 - x14  * x22 - x22)
+        h0[2,i] = x1 * x15 * (x0 * x4 * x6 - x14  * x22 - x22)
         h0[3,i] = x16 * (x16 * x18 * x18 - d2mu2[i])
         h0[4,i] = -x17 * x19 * x22
         h0[5,i] = x14 * (x0 * x0 * x4 / (x5 * x5) + x14 * x23 + x20 - x21 + x23)
@@ -925,29 +916,27 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         x3 = d1mu1[i]
         x4 = x3**2
         x5 = k
-        x6 = 1/w[i]
-        x7 = w[i] / k
+        x7 = 1.0 / k
         x8 = x7 + y[i]
-        x9 = x0*x5*x6
+        x9 = x0*x5
         x10 = x9 + 1
         x11 = 1/x10
-        x12 = w[i]**2
         x13 = 2 * np.log(k)
-        x14 = x8 * np.exp(x13)/x12
+        x14 = x8 * np.exp(x13)
         x15 = x14 / x10**2
         x16 = x0 * x11
         x17 = mu2[i]
         x18 = 1/(x17 - 1)
-        x19 = x12 * np.exp(-x13)
+        x19 = np.exp(-x13)
         
-        h1[0, i] = x1 * x11 * x5 * x6 * x8 - x15 * x4 + x4 * y[i] / x2 - x1 * y[i] / x0
-        h1[2, i] = x11 * x3 * (x5 * x6 * x8 - x14 * x16 - 1)
+        h1[0, i] = x1 * x11 * x5 * x8 - x15 * x4 + x4 * y[i] / x2 - x1 * y[i] / x0
+        h1[2, i] = x11 * x3 * (x5 * x8 - x14 * x16 - 1)
         h1[3, i] = x18 * (x18 * d1mu2[i]**2 -  d2mu2[i])
         h1[5, i] = x11 * x8 * x9 - x15 * x2 - 2 * x16 + x19 * sp.special.polygamma(1, x7) \
             - x19 * sp.special.polygamma(1, x8) + x7 * np.log(x10) +\
                 x7 * sp.special.polygamma(0, x7) - x7 * sp.special.polygamma(0, x8)
                 
-        h = h0 + h1        
+        h = (h0 + h1) * w
       
         h00 = np.einsum("ij,ik->jk", X*h[[0]].T, X)
         h10 = np.einsum("ij,ik->jk", Z*h[[1]].T, X)
-- 
2.43.0


From 7af10ef0cb1476eb4ca9227e464c6cc19ebe4531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:58 +0000
Subject: [PATCH 38/93] fix: OLS._permutation_test computes its observed t
 values and each permutation's own residual variance

---
 pystatsm/pyglm2/ols.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglm2/ols.py b/pystatsm/pyglm2/ols.py
index f0026cc..551d247 100644
--- a/pystatsm/pyglm2/ols.py
+++ b/pystatsm/pyglm2/ols.py
@@ -503,8 +503,6 @@ class OLS(RegressionMixin, LikelihoodModel):
         pbar = tqdm.tqdm(total=n_perms, smoothing=0.001) if verbose else None
         p_values = np.zeros(len(vars_of_interest))
         p_values_fwer = np.zeros(len(vars_of_interest))
-        abst = np.abs(self.tvalues[vars_of_interest])
-        
         n, p = self.n, self.p
         ixc = np.setdiff1d(np.arange(p), vars_of_interest)
         X, y = self.X, self.y
@@ -512,6 +510,7 @@ class OLS(RegressionMixin, LikelihoodModel):
         L = np.linalg.cholesky(G)
         Linv = np.linalg.inv(L)
         Ginv = np.diag(np.dot(Linv.T, Linv))
+        abst = np.abs(self.beta / np.sqrt(self.sse / (n - p) * Ginv))[vars_of_interest]
         Xc = X[:, ixc]
         
         Gc = G[ixc][:, ixc]
@@ -525,7 +524,7 @@ class OLS(RegressionMixin, LikelihoodModel):
             z = u + r[rng.permutation(n)]
             c = X.T.dot(z)
             w = sp.linalg.solve_triangular(L, c, lower=True)
-            s2 =  (y.T.dot(y) - w.T.dot(w)) / (n - p)
+            s2 =  (z.T.dot(z) - w.T.dot(w)) / (n - p)
             beta = sp.linalg.solve_triangular(L.T, w, lower=False)
             beta_se = np.sqrt(s2 * Ginv)           
             abstp = np.abs(beta / beta_se)[vars_of_interest]
-- 
2.43.0


From 637c460e92332ff8fcf9978ade1a4e41d31f8af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 39/93] fix: pyglm2 equality constraints bind their own index
 and value (late-binding lambdas, boolean masks)

---
 pystatsm/pyglm2/likelihood_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglm2/likelihood_model.py b/pystatsm/pyglm2/likelihood_model.py
index 8a08a6b..a2db93f 100644
--- a/pystatsm/pyglm2/likelihood_model.py
+++ b/pystatsm/pyglm2/likelihood_model.py
@@ -233,9 +233,9 @@ class LikelihoodModel(metaclass=ABCMeta):
         """
         constraints = []
         if np.asarray(fixed_indices).dtype==bool:
-            fixed_indices = np.where(fixed_indices)
+            fixed_indices, = np.where(fixed_indices)
         for i, xi in list(zip(fixed_indices, fixed_values)):
-            constraints.append({"type":"eq", "fun":lambda x: x[i] - xi})
+            constraints.append({"type":"eq", "fun":lambda x, i=i, xi=xi: x[i] - xi})
         return constraints
 
     @staticmethod
@@ -277,7 +277,7 @@ class LikelihoodModel(metaclass=ABCMeta):
         par, ind = np.atleast_1d(par), np.atleast_1d(ind)
         constraints = []
         for i, xi in list(zip(ind, par)):
-            constraints.append({"type":"eq", "fun":lambda x: x[i] - xi})
+            constraints.append({"type":"eq", "fun":lambda x, i=i, xi=xi: x[i] - xi})
         default_minimize_kws = dict(fun=loglike, jac=grad, hess=hess,
                                     method="trust-constr",
                                     constraints=constraints)
-- 
2.43.0


From dcfe3ccd2d7b8a07878208a37dced6ed4e8aa6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 40/93] fix: pyglm2 adjusted pseudo R-squared penalise the
 number of parameters (negative log-likelihood convention)

---
 pystatsm/pyglm2/likelihood_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm2/likelihood_model.py b/pystatsm/pyglm2/likelihood_model.py
index a2db93f..bc0969b 100644
--- a/pystatsm/pyglm2/likelihood_model.py
+++ b/pystatsm/pyglm2/likelihood_model.py
@@ -181,9 +181,9 @@ class LikelihoodModel(metaclass=ABCMeta):
         r2_cs = 1-np.exp(2.0/n_obs * (ll_model - ll_null))
         r2_nk = r2_cs / (1-np.exp(2.0 / n_obs * -ll_null))
         r2_mc = 1.0 - ll_model / ll_null
-        r2_mb = 1.0 - (ll_model - n_params) / ll_null
+        r2_mb = 1.0 - (ll_model + n_params) / ll_null
         r2_es = 1.0 - np.exp((2*ll_null/n_obs) * np.log(1.0-2.0*(ll_null - ll_model) / (2 * ll_null)))
-        r2_ea = 1.0 - np.exp((2*ll_null/n_obs) * np.log((n_params - ll_model) / -ll_null))
+        r2_ea = 1.0 - np.exp((2*ll_null/n_obs) * np.log((ll_model + n_params) / ll_null))
         r2_an = 2.0 * (ll_null - ll_model) / (2.0 * (ll_null - ll_model) + n_obs)
         r2_vz = (2.0 * (ll_null - ll_model) * (2*ll_null+n_obs)) /\
                 (2.0 * (ll_null * (2 * (ll_null - ll_model) + n_obs)))
-- 
2.43.0


From 09b9ec08a73743d95db334242cfba3b2644c3395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 41/93] fix: pyglm equality constraints bind their own index
 and value (late-binding lambdas, boolean masks)

---
 pystatsm/pyglm/linear_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 065acb8..ad8c5e8 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -238,9 +238,9 @@ class LikelihoodModel(metaclass=ABCMeta):
         """
         constraints = []
         if np.asarray(fixed_indices).dtype==bool:
-            fixed_indices = np.where(fixed_indices)
+            fixed_indices, = np.where(fixed_indices)
         for i, xi in list(zip(fixed_indices, fixed_values)):
-            constraints.append({"type":"eq", "fun":lambda x: x[i] - xi})
+            constraints.append({"type":"eq", "fun":lambda x, i=i, xi=xi: x[i] - xi})
         return constraints
 
     @staticmethod
@@ -282,7 +282,7 @@ class LikelihoodModel(metaclass=ABCMeta):
         par, ind = np.atleast_1d(par), np.atleast_1d(ind)
         constraints = []
         for i, xi in list(zip(ind, par)):
-            constraints.append({"type":"eq", "fun":lambda x: x[i] - xi})
+            constraints.append({"type":"eq", "fun":lambda x, i=i, xi=xi: x[i] - xi})
         default_minimize_kws = dict(fun=loglike, jac=grad, hess=hess,
                                     method="trust-constr",
                                     constraints=constraints)
-- 
2.43.0


From 72f4b142141970ae75f47b2aae29dc0c080a050b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 42/93] fix: pyglm adjusted pseudo R-squared penalise the
 number of parameters (negative log-likelihood convention)

---
 pystatsm/pyglm/linear_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index ad8c5e8..5310c84 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -191,7 +191,7 @@ class LikelihoodModel(metaclass=ABCMeta):
         r2_cs = 1-np.exp(2.0/n_obs * (ll_model - ll_null))
         r2_nk = r2_cs / (1-np.exp(2.0 / n_obs * -ll_null))
         r2_mc = 1.0 - ll_model / ll_null
-        r2_mb = 1.0 - (ll_model - n_params) / ll_null
+        r2_mb = 1.0 - (ll_model + n_params) / ll_null
         llr = 2.0 * (ll_null - ll_model)
         return r2_cs, r2_nk, r2_mc, r2_mb, llr
 
-- 
2.43.0


From a50d3fe79a299ec7bada93f8fce8dda13065b0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 43/93] fix: pyglm2 ModelData keeps columns and design_info
 aligned when a Series is stored

---
 pystatsm/pyglm2/regression_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/pyglm2/regression_model.py b/pystatsm/pyglm2/regression_model.py
index a4e9e36..51e3265 100644
--- a/pystatsm/pyglm2/regression_model.py
+++ b/pystatsm/pyglm2/regression_model.py
@@ -92,6 +92,8 @@ class ModelData(object):
                 self.design_info.append(design_info)
             else:  # pd.Series
                 self.names.append(data.name)
+                self.columns.append(pd.Index([data.name]))
+                self.design_info.append(None)
                 self.data.append(data.to_numpy().reshape(-1, 1))
         else:  # numpy array
             self.design_info.append(None)
-- 
2.43.0


From 28bf54454d9ee4efffffeaa0a8ff539e514ead82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 44/93] fix: pyglm ModelData keeps columns and design_info
 aligned when a Series is stored

---
 pystatsm/pyglm/linear_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 5310c84..e0b31bf 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -629,6 +629,8 @@ class ModelData(object):
                 self.design_info.append(design_info)
             else:  # pd.Series
                 self.names.append(data.name)
+                self.columns.append(pd.Index([data.name]))
+                self.design_info.append(None)
                 self.data.append(data.to_numpy().reshape(-1, 1))
         else:  # numpy array
             self.design_info.append(None)
-- 
2.43.0


From 4422fde3a3bc882e353014965bcb56001690d6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 45/93] fix: ModelData.drop_missing accepts one-dimensional
 arrays (flattened responses)

---
 pystatsm/pyglm2/regression_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/regression_model.py b/pystatsm/pyglm2/regression_model.py
index 51e3265..4ef5209 100644
--- a/pystatsm/pyglm2/regression_model.py
+++ b/pystatsm/pyglm2/regression_model.py
@@ -215,7 +215,8 @@ class ModelData(object):
         Drop rows containing nan values from the data arrays.
         """
         # Find rows with nan values
-        nan_rows = np.any([np.isnan(arr).any(axis=1) for arr in self.data], axis=0)
+        nan_rows = np.any([np.isnan(arr).reshape(len(arr), -1).any(axis=1)
+                           for arr in self.data], axis=0)
     
         # Remove rows with nan values from data arrays
         for i, arr in enumerate(self.data):
-- 
2.43.0


From dad4a92971021563649040c26a1312fb9e8d509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 46/93] fix: BCa intervals use the bootstrap proportion below
 the estimate for the bias correction

---
 pystatsm/utilities/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/output.py b/pystatsm/utilities/output.py
index 50f6938..b99830e 100644
--- a/pystatsm/utilities/output.py
+++ b/pystatsm/utilities/output.py
@@ -86,7 +86,7 @@ def compute_bias_corrected_bootstrap_intervals(params, jack_samples, boot_sample
     jack_samples = np.asarray(jack_samples)
     boot_samples = np.asarray(boot_samples)
 
-    z0 = sp.special.ndtri(np.mean(params < boot_samples, axis=0)).reshape(-1, 1)
+    z0 = sp.special.ndtri(np.mean(boot_samples < params, axis=0)).reshape(-1, 1)
     jack_mean = np.mean(jack_samples, axis=0)
     d = jack_mean - jack_samples
     d2 = d * d
-- 
2.43.0


From 0d938f5501bdcbde8563d323be6e18f805d69f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 47/93] fix: LinearModel._permutation_test computes its
 observed t values and each permutation's own residual variance

---
 pystatsm/pyglm/linear_model.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index e0b31bf..83435ca 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1381,8 +1381,6 @@ class LinearModel(RegressionMixin, LikelihoodModel):
         pbar = tqdm.tqdm(total=n_perms, smoothing=0.001) if verbose else None
         p_values = np.zeros(len(vars_of_interest))
         p_values_fwer = np.zeros(len(vars_of_interest))
-        abst = np.abs(self.tvalues[vars_of_interest])
-        
         n, p = self.n, self.p
         ixc = np.setdiff1d(np.arange(p), vars_of_interest)
         X, y = self.X, self.y
@@ -1390,6 +1388,7 @@ class LinearModel(RegressionMixin, LikelihoodModel):
         L = np.linalg.cholesky(G)
         Linv = np.linalg.inv(L)
         Ginv = np.diag(np.dot(Linv.T, Linv))
+        abst = np.abs(self.beta / np.sqrt(self.sse / (n - p) * Ginv))[vars_of_interest]
         Xc = X[:, ixc]
         
         Gc = G[ixc][:, ixc]
@@ -1403,7 +1402,7 @@ class LinearModel(RegressionMixin, LikelihoodModel):
             z = u + r[rng.permutation(n)]
             c = X.T.dot(z)
             w = sp.linalg.solve_triangular(L, c, lower=True)
-            s2 =  (y.T.dot(y) - w.T.dot(w)) / (n - p)
+            s2 =  (z.T.dot(z) - w.T.dot(w)) / (n - p)
             beta = sp.linalg.solve_triangular(L.T, w, lower=False)
             beta_se = np.sqrt(s2 * Ginv)           
             abstp = np.abs(beta / beta_se)[vars_of_interest]
-- 
2.43.0


From 6dded2e200d19046c4d60110cbaa67efc2b238cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 48/93] fix: SEM gives observed variables with a latent dummy
 no residual variance of their own

---
 pystatsm/pysem2/model_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem2/model_base.py b/pystatsm/pysem2/model_base.py
index 79457b8..ff73b3d 100644
--- a/pystatsm/pysem2/model_base.py
+++ b/pystatsm/pysem2/model_base.py
@@ -263,7 +263,7 @@ class ParameterMapping:
             elif i == 2:
                 mat_template = np.eye(mat_dims[i][0])
             elif i == 3:
-                inx = [ov_order[x] for x in var_names["onx"]]
+                inx = [ov_order[x] for x in var_names["onx"] - var_names["lav"]]
                 mat_template[inx, inx] = 1.0
             else:
                 mat_template = np.zeros(mat_dims[i])
-- 
2.43.0


From 2876d61a322e1ab153310341c8e1571110e3bd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 49/93] fix: SEM derivatives cover every free parameter when a
 later one is tied to an earlier one (labels, shared groups)

---
 pystatsm/pysem2/indexers.py   | 4 ++--
 pystatsm/pysem2/model_base.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pysem2/indexers.py b/pystatsm/pysem2/indexers.py
index e21bb07..c5b79ff 100644
--- a/pystatsm/pysem2/indexers.py
+++ b/pystatsm/pysem2/indexers.py
@@ -205,8 +205,8 @@ class BlockFlattenedArrays:
         self.colex_descending_inds = np.vstack(self._tril_inds).T
 
 
-def equality_constraint_mat(unique_locs):
-    n = unique_locs.max() + 1
+def equality_constraint_mat(unique_locs, n=None):
+    n = unique_locs.max() + 1 if n is None else n
     m = len(unique_locs)
     row = np.arange(m)
     col = unique_locs
diff --git a/pystatsm/pysem2/model_base.py b/pystatsm/pysem2/model_base.py
index ff73b3d..44865a0 100644
--- a/pystatsm/pysem2/model_base.py
+++ b/pystatsm/pysem2/model_base.py
@@ -442,7 +442,7 @@ class ModelBase(ParameterTable, FixedValueManager, ParameterMapping):
         unique_values, inverse_mapping, indices = indexing_utils.unique(ftable["label"])
         unique_labels = pd.Series(unique_values)
         label_to_ind = pd.Series(unique_labels.index, index=unique_labels.values)
-        self.dfree_dtheta = equality_constraint_mat(indices)
+        self.dfree_dtheta = equality_constraint_mat(indices, len(ftable))
         self._unique_locs, self._first_locs = inverse_mapping, indices
         self.free_df = ftable
         self.free_df["theta_index"] = ftable["label"].map(label_to_ind)
-- 
2.43.0


From e0f6bb8cfc72344594b81b147a6f61109f1f3d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 50/93] fix: SEM fit function's constant describes the modelled
 variables, not every column of the data

---
 pystatsm/pysem2/model_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pysem2/model_data.py b/pystatsm/pysem2/model_data.py
index 61e946e..5fe0111 100644
--- a/pystatsm/pysem2/model_data.py
+++ b/pystatsm/pysem2/model_data.py
@@ -51,6 +51,7 @@ class ModelData(object):
             self.sample_mean_df[i] = self.sample_mean_df[i][variables]
             self.sample_cov[i] = self.sample_cov_df[i].values
             self.sample_mean[i] = self.sample_mean_df[i].values
+            self.const[i] = -np.linalg.slogdet(self.sample_cov[i])[1] - len(variables)
 
     @staticmethod
     def _convert_to_dict(data):
-- 
2.43.0


From 02a26e1af8f32377e7943026a47340aa87b49749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 51/93] fix: second derivative of the SEM mean with respect to
 two regression coefficients is symmetric in them

---
 pystatsm/pysem2/derivatives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem2/derivatives.py b/pystatsm/pysem2/derivatives.py
index be669a9..580ed7e 100644
--- a/pystatsm/pysem2/derivatives.py
+++ b/pystatsm/pysem2/derivatives.py
@@ -81,7 +81,7 @@ def _d2sigma_mu(d2Sm, L, B, F, b, dA, m_size, m_type, d2_inds, vind, n, p2):
             dSij = LB.dot(t1 + t1.T + t3 + t4).dot(LB.T)
             d2Sm[:p2, i, j] += dSij.T.flatten()[vind]
             d2Sm[:p2, j, i] = d2Sm[:p2, i, j]
-            dmij = LB.dot(Ji).dot(B).dot(Jj).dot(Bb)
+            dmij = LB.dot(C3.dot(Ji) + C2.dot(Jj)).dot(Bb)
             d2Sm[p2:, i, j] += dmij.flatten()
             d2Sm[p2:, j, i] = d2Sm[p2:, i, j]
         elif kind == 5:
-- 
2.43.0


From 4ddd41e75660d1570d9455c0c1c9776db67aca08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 52/93] fix: SEM covariance options lvx_cov and y_cov can be
 switched off

---
 pystatsm/pysem2/model_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pysem2/model_builder.py b/pystatsm/pysem2/model_builder.py
index ff0d73e..6bec004 100644
--- a/pystatsm/pysem2/model_builder.py
+++ b/pystatsm/pysem2/model_builder.py
@@ -27,7 +27,7 @@ class ModelBuilder:
         fix_lv_var : bool, optional
             whether to fix the latent variable variance to 1.0. Default is False.
         lvx_cov : bool, optional
-            whether to include covariances for all latent exogenous variables. Default is False.
+            whether to include covariances for all latent exogenous variables. Default is True.
         y_cov : bool, optional
             whether to include covariances for all observed variables. Default is True.
         fix_lv_mean : bool, optional
@@ -35,7 +35,7 @@ class ModelBuilder:
         """
         self.add_variances(fix_lv_cov=kwargs.get('fix_lv_var', False))
         self.fix_first(vars_to_fix=kwargs.get('fix_first', True))
-        self.add_covariances(lvx_cov=~kwargs.get('lvx_cov', False), y_cov=~kwargs.get('y_cov', True))
+        self.add_covariances(lvx_cov=kwargs.get('lvx_cov', True), y_cov=kwargs.get('y_cov', True))
         self.add_means(fix_lv_mean=kwargs.get('fix_lv_mean', True))
         self.add_latent_dummies()
         self.check_initital_loadings()
-- 
2.43.0


From 432169c2c96d023f2db97958c2555cebd4ffba69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 53/93] fix: SEM option fix_lv_var fixes the latent variances
 to one instead of NaN

---
 pystatsm/pysem2/model_builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pysem2/model_builder.py b/pystatsm/pysem2/model_builder.py
index 6bec004..e302a83 100644
--- a/pystatsm/pysem2/model_builder.py
+++ b/pystatsm/pysem2/model_builder.py
@@ -91,6 +91,7 @@ class ModelBuilder:
                 row["fixed"] = True
             elif var in var_names["nob"] and fix_lv_cov:
                 row["fixed"] = True
+                row["fixedval"] = 1.0
             else:
                 row["fixed"] = False
             list_of_param_dicts.append(row)
-- 
2.43.0


From 16b286c37f1f653899fd9d0eefd3340239d4e7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 54/93] fix: SEM option fix_first accepts False

---
 pystatsm/pysem2/model_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/pysem2/model_builder.py b/pystatsm/pysem2/model_builder.py
index e302a83..0e3bdc9 100644
--- a/pystatsm/pysem2/model_builder.py
+++ b/pystatsm/pysem2/model_builder.py
@@ -287,6 +287,8 @@ class ModelBuilder:
         vnob = var_names["nob"]
         if vars_to_fix is None or vars_to_fix is True: #woof
             vars_to_fix = {v:True for v in vnob}
+        elif vars_to_fix is False:
+            vars_to_fix = {v:False for v in vnob}
         elif type(vars_to_fix) is not dict:
             raise ValueError("Expected dictionary or a a boolean")
         #else we have a dict
-- 
2.43.0


From 629fc0ac81dc9a3790a8c6307be178d272893366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:10 +0000
Subject: [PATCH 55/93] fix: SEM variable order lists an indicator that is also
 an outcome once

---
 pystatsm/pysem2/variable_ordering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem2/variable_ordering.py b/pystatsm/pysem2/variable_ordering.py
index 17bbfee..d252f2d 100644
--- a/pystatsm/pysem2/variable_ordering.py
+++ b/pystatsm/pysem2/variable_ordering.py
@@ -48,7 +48,7 @@ class VariableOrder:
         g.extend(sorted(subset & var_names["nob"] - (var_names["nob"] & var_names["ind"]), key=_default_sort_key))
         u = set(g)
         g.extend(sorted(subset - u, key=_default_sort_key))
-        return g
+        return list(dict.fromkeys(g))
 
     @staticmethod
     def sort_flat_representation(df, symmetric=False, vector=False):
-- 
2.43.0


From cea0ffc4c1c2794f7ae14b8c0360439f05923c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 56/93] fix: parameter transforms of integer arrays are not
 truncated to integers

---
 pystatsm/utilities/param_transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/utilities/param_transforms.py b/pystatsm/utilities/param_transforms.py
index e3d497b..a7c4229 100644
--- a/pystatsm/utilities/param_transforms.py
+++ b/pystatsm/utilities/param_transforms.py
@@ -57,6 +57,8 @@ class ParameterTransformBase(ABC):
     def _apply_method(self, x, method):
         if np.isscalar(x):
             return getattr(self, method)(x)
+        if x.dtype.kind in "iub":
+            x = x.astype(float)
         ndim = x.ndim
         func = getattr(self, method)
         if ndim==1:
-- 
2.43.0


From 8fc983a15744b73cf95a0d126230183a0a8b91ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:47 +0000
Subject: [PATCH 57/93] fix: dchol's second derivative is lower triangular in
 the matrix indices, not in the parameters

---
 pystatsm/utilities/dchol.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pystatsm/utilities/dchol.py b/pystatsm/utilities/dchol.py
index 010978f..db4605f 100644
--- a/pystatsm/utilities/dchol.py
+++ b/pystatsm/utilities/dchol.py
@@ -60,8 +60,10 @@ def dchol(M, dM, d2M, order=2):
     dMt = np.swapaxes(np.swapaxes(dM, 0, 2), 1, 2)
     dLt  = np.tril(dMt)
     dL = np.swapaxes(np.swapaxes(dLt, 1, 2), 0, 2)
-    d2L = np.tril(d2M)
+    d2L = d2M.copy()
     n = L.shape[-1]
+    for i in range(n):
+        d2L[i, i+1:] = 0.0
     m = dM.shape[-1]
     
     for k in range(n):
-- 
2.43.0


From 4ea046183b5f839ae2b29f532ad974a180f5faeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 58/93] fix: post-multiplying by the elimination matrix
 transposes it

---
 pystatsm/utilities/special_mats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/special_mats.py b/pystatsm/utilities/special_mats.py
index 2e7500a..05de8db 100644
--- a/pystatsm/utilities/special_mats.py
+++ b/pystatsm/utilities/special_mats.py
@@ -181,7 +181,7 @@ def _apply_lmat_post1(arr, i):
     return arr[:, i]
 
 def _apply_lmat_post2(arr, L):
-    return sp.sparse.csc_matrix.dot(arr, L)
+    return sp.sparse.csc_matrix.dot(arr, L.T)
 
 
 def _apply_lmat_pre_post1(arr, i):
@@ -368,7 +368,7 @@ class EliminationMatrix:
         return self.L.dot(A)
 
     def apply_post_alt(self, A):
-        return sp.sparse.csc_matrix.dot(A, self.L)
+        return sp.sparse.csc_matrix.dot(A, self.L.T)
 
     def app(self, A, pre=True, post=False):
         if pre:
-- 
2.43.0


From 96f87a02896542d10e7ba3c9883c5f026598367b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:31 +0000
Subject: [PATCH 59/93] fix: DuplicationMatrix.apply_pre_post transposes the
 second matrix by default, like apply_post

---
 pystatsm/utilities/special_mats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/special_mats.py b/pystatsm/utilities/special_mats.py
index 05de8db..57a7f99 100644
--- a/pystatsm/utilities/special_mats.py
+++ b/pystatsm/utilities/special_mats.py
@@ -416,7 +416,7 @@ class DuplicationMatrix:
             D = D.T
         return (D.dot(A.T)).T
 
-    def apply_pre_post(self, A, D1=None, D2=None, t1=True, t2=False):
+    def apply_pre_post(self, A, D1=None, D2=None, t1=True, t2=True):
         if D1 is None and D2 is None:
             D1 = D2 = self.D
         elif D1 is None:
-- 
2.43.0


From 17e67a089f89f83a13aae5fd966fc7dca8aba7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:34 +0000
Subject: [PATCH 60/93] fix: LMM2 normal equations keep entries whose
 crossproduct cancels to zero

---
 pystatsm/pylmm/re_mod.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index f32be69..1d575e0 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -77,6 +77,20 @@ def sparsity(a):
     return a.nnz / np.prod(a.shape)
 
 
+def _indicator(a):
+    return sp.sparse.csc_array((np.ones(a.nnz), a.indices, a.indptr),
+                               shape=a.shape)
+
+
+def _crossprod_pattern(Zt, G):
+    # structural pattern of ZtZ + G: a sum of products that happens to
+    # cancel to zero (e.g. a centred covariate) still owns an entry
+    Zp, Gp = _indicator(Zt), _indicator(G)
+    pattern = sp.sparse.csc_array(Zp.dot(Zp.T) + Gp)
+    pattern.sort_indices()
+    return pattern
+
+
 def _resolve_a(a_cov):
     n = a_cov.shape[0]
     if sp.sparse.issparse(a_cov):
@@ -655,17 +669,18 @@ class MMEBlocked(BaseMME):
             self._initialize_unweighted()
         else:
             self._initialize_weighted()
-        self.C = self.ZtRZ + self.G
+        self.C = _crossprod_pattern(self.Zt, self.G)
+        cs_add_inplace(self.ZtRZ, self.G, self.C)
 
     def _initialize_unweighted(self):
         ZtR = self.Zt.dot(self.R).tocsc()
         ZtRdR = ZtR.copy()
         ZtR_dR_RZ = sp.sparse.csc_array.dot(ZtRdR, ZtR.T).tocsc()
 
-        ZtZ = sp.sparse.csc_array.dot(self.Zt, self.Zt.T).tocsc()
-        ZtZ.sort_indices()
+        ZtZ = _crossprod_pattern(self.Zt, self.G)
+        cs_add_inplace(sp.sparse.csc_array.dot(self.Zt, self.Zt.T).tocsc(),
+                       self.G, ZtZ, 1.0, 0.0)
         ZtRZ = ZtZ.copy()                       # persistent buffer
-        ZtRZ.sort_indices()
 
         ZtXy = sp.sparse.csc_array.dot(self.Zt, self.Xy)
         ZtRXy = ZtXy.copy()                     # ndarray buffer
-- 
2.43.0


From 2879aa0c881d70dd5bbf33abb6b586133ec6512a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:34 +0000
Subject: [PATCH 61/93] fix: relationship matrix and its inverse share one
 sparsity pattern in KronAG

---
 pystatsm/pylmm/re_mod.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index 1d575e0..8119b89 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -97,11 +97,16 @@ def _resolve_a(a_cov):
         a_csc = a_cov.tocsc()
         fac = cholesky(sp.sparse.csc_matrix(a_csc))
         a_inv = sp.sparse.csc_matrix(fac.solve_A(sp.sparse.eye(n, format='csc')))
-        return a_csc, a_inv
-    A = np.asarray(a_cov)
-    L = np.linalg.cholesky(A)
-    A_inv = sp.linalg.cho_solve((L, True), np.eye(n))
-    return sp.sparse.csc_matrix(A), sp.sparse.csc_matrix(A_inv)
+    else:
+        A = np.asarray(a_cov)
+        L = np.linalg.cholesky(A)
+        A_inv = sp.linalg.cho_solve((L, True), np.eye(n))
+        a_csc, a_inv = sp.sparse.csc_matrix(A), sp.sparse.csc_matrix(A_inv)
+    # G and its inverse are written into one buffer, so they share a pattern
+    pattern = sp.sparse.csc_matrix(_indicator(a_csc) + _indicator(a_inv))
+    pattern.sort_indices()
+    return (cs_add_inplace(a_csc, a_csc, pattern.copy(), 1.0, 0.0),
+            cs_add_inplace(a_inv, a_inv, pattern.copy(), 1.0, 0.0))
 
 
 class BaseCovarianceStructure(metaclass=ABCMeta):
-- 
2.43.0


From 31ba09087d5c132b2ff7f031f08718a2986cd78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:34 +0000
Subject: [PATCH 62/93] fix: gradient_v2 with a relationship matrix term

---
 pystatsm/pylmm/re_mod.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index 8119b89..bda83a5 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -219,8 +219,9 @@ class BaseProductCovariance(metaclass=ABCMeta):
         pass
 
     def accumulate_gradient(self, par_offset, sl, ZtRZ, L_zz, T_zx, v_y,
-                            T_xx_inv, reml, grad):
-        L_zz_blk_t = L_zz[sl].T.tocsc()
+                            T_xx_inv, reml, grad, L_zz_sl=None):
+        L_zz_blk = L_zz_sl if L_zz_sl is not None else L_zz[sl]
+        L_zz_blk_t = L_zz_blk.T.tocsc()
         ZtRZ_blk = ZtRZ[sl, sl]
         T_zx_blk = T_zx[sl]
         v_y_blk = v_y[sl]
-- 
2.43.0


From b369ddca989a1afc992dd6addc85857ddc4d8ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:42 +0000
Subject: [PATCH 63/93] fix: LMM2 gradient when CHOLMOD permutes the random
 effects

---
 pystatsm/utilities/python_wrappers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pystatsm/utilities/python_wrappers.py b/pystatsm/utilities/python_wrappers.py
index 1a29696..e077b85 100644
--- a/pystatsm/utilities/python_wrappers.py
+++ b/pystatsm/utilities/python_wrappers.py
@@ -302,6 +302,8 @@ def sparse_dot(a, b, c=0.0):
     return c
 
 def sparse_pattern_trace(B, C, out=0.0):
+    # the kernel merges column index lists, which a permuted B leaves unsorted
+    B = B if B.has_sorted_indices else B.sorted_indices()
     out = cs_pattern_trace_wrapper(B.indptr, B.indices, B.data, B.shape[0], B.shape[1], B.nnz,
                                    C.indptr, C.indices, C.data, C.shape[0], C.shape[1], C.nnz,
                                    out)
@@ -314,6 +316,8 @@ def block_diag_self_dot(L_csr, ng, nv, out=None):
     out[a, b] = sum_j sum_p L[j*nv+a, p] * L[j*nv+b, p]."""
     if out is None:
         out = np.zeros((nv, nv), dtype=np.double)
+    # the kernel merges row index lists, which a permuted L leaves unsorted
+    L_csr = L_csr if L_csr.has_sorted_indices else L_csr.sorted_indices()
     cs_block_diag_self_dot_wrapper(L_csr.indptr.astype(np.int32, copy=False),
                                    L_csr.indices.astype(np.int32, copy=False),
                                    L_csr.data.astype(np.double, copy=False),
-- 
2.43.0


From fa01173a89afe89cae7f82855baeaae7531064bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:42 +0000
Subject: [PATCH 64/93] fix: relationship matrix terms with more than one
 random effect variable

---
 pystatsm/utilities/python_wrappers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pystatsm/utilities/python_wrappers.py b/pystatsm/utilities/python_wrappers.py
index e077b85..4211664 100644
--- a/pystatsm/utilities/python_wrappers.py
+++ b/pystatsm/utilities/python_wrappers.py
@@ -202,6 +202,7 @@ def sparse_kron_inplace(A, B, C):
     return C
 
 def ds_kron(A, B, out=None):
+    A = np.asfortranarray(A)
     Anr, Anc = A.shape
     Bnr, Bnc = B.shape
     Bnz = B.nnz
@@ -225,6 +226,7 @@ def ds_kron(A, B, out=None):
         return Cx, Ci, Cp
 
 def ds_kron_inplace(A, B, C):
+    A = np.asfortranarray(A)
     Anr, Anc = A.shape
     Bnr, Bnc = B.shape
     Cx = C if isinstance(C, np.ndarray) else C.data
@@ -269,6 +271,7 @@ def id_sp_kron_inplace(m, B, C):
 
 
 def sparse_dense_kron(A, B, out=None):
+    B = np.asfortranarray(B)
     Anr, Anc = A.shape
     Bnr, Bnc = B.shape
     Anz = A.nnz
@@ -326,6 +329,7 @@ def block_diag_self_dot(L_csr, ng, nv, out=None):
     return out
 
 def sparse_dense_kron_inplace(A, B, C):
+    B = np.asfortranarray(B)
     Anr, Anc = A.shape
     Bnr, Bnc = B.shape
     Ap, Ai, Ax = A.indptr, A.indices, A.data
-- 
2.43.0


From 06d3feefd50f0da18103760276cf5290f0166297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 65/93] fix: id_sp_kron passes the number of rows of a
 non-square matrix

---
 pystatsm/utilities/python_wrappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/python_wrappers.py b/pystatsm/utilities/python_wrappers.py
index 4211664..7daa47e 100644
--- a/pystatsm/utilities/python_wrappers.py
+++ b/pystatsm/utilities/python_wrappers.py
@@ -255,7 +255,7 @@ def id_sp_kron(m, B):
     Ci = np.zeros(m * nnz, dtype=np.int32)
     Cx = np.zeros(m * nnz, dtype=np.float64)
     
-    cs_kron_id_sp_wrapper(m, Bx, Bi, Bp, Bnc, Bnc, Cx, Ci, Cp)
+    cs_kron_id_sp_wrapper(m, Bx, Bi, Bp, Bnr, Bnc, Cx, Ci, Cp)
     
     return sp.sparse.csc_matrix((Cx, Ci, Cp), shape=(m * Bnr, m * Bnc))
 
@@ -265,7 +265,7 @@ def id_sp_kron_inplace(m, B, C):
     Bp, Bi, Bx = B.indptr, B.indices, B.data
     Cp, Ci, Cx = C.indptr, C.indices, C.data
    
-    cs_kron_id_sp_inplace_wrapper(m, Bx, Bi, Bp, Bnc, Bnc, Cx, Ci, Cp)
+    cs_kron_id_sp_inplace_wrapper(m, Bx, Bi, Bp, Bnr, Bnc, Cx, Ci, Cp)
     
     return C
 
-- 
2.43.0


From 54f053149076b19fdfb349d86dba93f1ad86a3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 66/93] fix: cs_matmul_inplace sorts the indices on every call,
 not only the first

---
 pystatsm/utilities/python_wrappers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pystatsm/utilities/python_wrappers.py b/pystatsm/utilities/python_wrappers.py
index 7daa47e..0afbab3 100644
--- a/pystatsm/utilities/python_wrappers.py
+++ b/pystatsm/utilities/python_wrappers.py
@@ -101,6 +101,8 @@ def cs_matmul_inplace(A, B, C):
     Cp, Ci, Cx = C.indptr, C.indices, C.data
     
     cs_matmul_inplace_wrapper(Ap, Ai, Ax, Anr, Anc, Bp, Bi, Bx, Bnr, Bnc, Cp, Ci, Cx)
+    # the kernel rewrites the indices of C in the order it meets them
+    C.has_sorted_indices = False
     C.sort_indices()
     return C
 
@@ -114,6 +116,8 @@ def cs_matmul_inplace_complex(A, B, C):
     Cp, Ci, Cx = C.indptr, C.indices, C.data
     
     cs_matmul_inplace_complex_wrapper(Ap, Ai, Ax, Anr, Anc, Bp, Bi, Bx, Bnr, Bnc, Cp, Ci, Cx)
+    # the kernel rewrites the indices of C in the order it meets them
+    C.has_sorted_indices = False
     C.sort_indices()
     return C
 
-- 
2.43.0


From 7da3dac8572bef8d661e2346dcb9de8f1dad2a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:26 +0000
Subject: [PATCH 67/93] fix: toeplitz_cholesky_lower_nb scales by the root of
 the diagonal

---
 pystatsm/utilities/linalg_operations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/utilities/linalg_operations.py b/pystatsm/utilities/linalg_operations.py
index 9cdd1b5..abec7c4 100644
--- a/pystatsm/utilities/linalg_operations.py
+++ b/pystatsm/utilities/linalg_operations.py
@@ -288,6 +288,7 @@ def toeplitz_cholesky_lower_nb(n, A):
         g[0, j] = A[j, 0]
     for j in range(1, n):
         g[1, j] = A[j, 0]
+    g = g / np.sqrt(A[0, 0])
     L = np.zeros((n, n), dtype=np.double)
     for j in range(0, n):
         L[j, 0] = g[0, j]
-- 
2.43.0


From f2edbc587079fdad83ad7f833147877a4e420892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 68/93] fix: scalar_truncnorm without bounds scales its draw
 once

---
 pystatsm/utilities/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/random.py b/pystatsm/utilities/random.py
index 68ffbdc..13263e7 100644
--- a/pystatsm/utilities/random.py
+++ b/pystatsm/utilities/random.py
@@ -128,7 +128,7 @@ def scalar_truncnorm(mu, sd, lb, ub):
     sample = 1
     if (lb < -1e16) or (ub>1e16):
         if (lb < -1e16) and (ub>1e16):
-            z = np.random.normal(mu, sd)
+            z = np.random.normal(0.0, 1.0)
         else:
             if ub > 1e16:
                 tr = (lb - mu) / sd
-- 
2.43.0


From fffc72f323b980d59624feeb055524ca41a91810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 69/93] fix: sum_preserving_round leaves integers alone

---
 pystatsm/utilities/func_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/func_utils.py b/pystatsm/utilities/func_utils.py
index 3be3838..6f3d39c 100644
--- a/pystatsm/utilities/func_utils.py
+++ b/pystatsm/utilities/func_utils.py
@@ -311,7 +311,7 @@ def sum_preserving_round(arr):
     arr_fract = arr - arr_floor
     arr_fract_sort = np.argsort(arr_fract)
     sum_diff = int(np.round(np.sum(arr) -  np.sum(arr_floor)))
-    ind = arr_fract_sort[-sum_diff:]
+    ind = arr_fract_sort[len(arr_fract_sort)-sum_diff:]
     arr_floor[ind] = arr_floor[ind] + 1
     return arr_floor
 
-- 
2.43.0


From 4a69de784fcbbb76dbbdf4bbc25c6bdbf0446291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 70/93] fix: get_antedependence1_corr is symmetric for more
 than three variables

---
 pystatsm/utilities/cov_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/utilities/cov_utils.py b/pystatsm/utilities/cov_utils.py
index 00bb423..1be2150 100644
--- a/pystatsm/utilities/cov_utils.py
+++ b/pystatsm/utilities/cov_utils.py
@@ -180,7 +180,8 @@ def get_antedependence1_corr(rho, n_var=None):
         r.append(np.cumprod(rho[i:]))
     r = np.concatenate(r)
     R = np.eye(n_var)
-    R[np.triu_indices(n_var, 1)[::-1]] = R[np.tril_indices(n_var, -1)[::-1]] = r
+    i, j = np.triu_indices(n_var, 1)
+    R[i, j] = R[j, i] = r
     return R
 
 def get_factor_cov(A, Psi, Phi=None, n_var=None):
-- 
2.43.0


From edac4e70eb4f6fd96ebc8e8046d29a942443c7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 71/93] fix: flat_cross_tabulate uses np.prod

---
 pystatsm/utilities/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/data_utils.py b/pystatsm/utilities/data_utils.py
index 7893d08..019782a 100644
--- a/pystatsm/utilities/data_utils.py
+++ b/pystatsm/utilities/data_utils.py
@@ -405,7 +405,7 @@ def flat_cross_tabulate(arr, column_dim=-1):
     axis_positions.append(axis_positions.pop(column_dim))
     axis_locations = [axis_positions.index(i) for i in range(counts.ndim)]
     counts = np.moveaxis(counts, list(range(counts.ndim)), axis_locations)
-    counts = counts.reshape(np.product(counts.shape[:-1]), counts.shape[-1], order='C')
+    counts = counts.reshape(np.prod(counts.shape[:-1]), counts.shape[-1], order='C')
     row_labels = np.array(list(itertools.product(*levels)))
     return counts, row_labels, col_labels, axis_locations
     
-- 
2.43.0


From 6a46ee656e9704ca514baff1392f7e9e6c9a5377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 72/93] fix: welford_variance keeps the order of the remaining
 axes

---
 pystatsm/utilities/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/data_utils.py b/pystatsm/utilities/data_utils.py
index 019782a..c977668 100644
--- a/pystatsm/utilities/data_utils.py
+++ b/pystatsm/utilities/data_utils.py
@@ -349,7 +349,7 @@ def welford_variance(arr, axis=None, unbiased=False):
     n = shape.pop(axis)
     mean = np.zeros(tuple(shape))
     sumsq = np.zeros(tuple(shape))
-    arr = np.swapaxes(arr, 0, axis)
+    arr = np.moveaxis(arr, axis, 0)
     mean, sumsq = _welford_variance(arr, n, mean, sumsq)
     variance = sumsq / (n - unbiased)
     return mean, variance
-- 
2.43.0


From fcca0b828931f24f1a7c8ad3e902a48fd63ae71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 73/93] fix: sign_change counts changes of sign, not values of
 the other sign

---
 pystatsm/utilities/data_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/utilities/data_utils.py b/pystatsm/utilities/data_utils.py
index c977668..de6af98 100644
--- a/pystatsm/utilities/data_utils.py
+++ b/pystatsm/utilities/data_utils.py
@@ -290,6 +290,7 @@ def _kth_sign_change_1d(arr, b, k=1):
     j = 0
     for i in range(1, n):
         if np.sign(arr[i]-b)!=s:
+            s = np.sign(arr[i]-b)
             j += 1
         if j==k:
             break
-- 
2.43.0


From 6a7ad8069d12518fddcfd0fe562c7b810b8314eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:34 +0000
Subject: [PATCH 74/93] fix: jac_approx and hess_approx pass args to the
 function

---
 pystatsm/utilities/numerical_derivs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/utilities/numerical_derivs.py b/pystatsm/utilities/numerical_derivs.py
index bb414ca..be7ebf7 100644
--- a/pystatsm/utilities/numerical_derivs.py
+++ b/pystatsm/utilities/numerical_derivs.py
@@ -192,7 +192,7 @@ def grad_approx(f, x, eps=1e-4, tol=None, d=1e-4, nr=6, v=2):
 
 
 def jac_approx(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False, mask=None):
-    def Func(X, args=()):
+    def Func(X, *args):
         return np.atleast_1d(F(X, *args))
     X = np.asarray(X)
     Y = np.asarray(Func(X, *args))
@@ -240,7 +240,7 @@ def jac_approx2(f, x, eps=1e-4, tol=None, d=1e-4, nr=6, v=2):
     return A
 
 def jac_approx3(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
-    def Func(X, args=()):
+    def Func(X, *args):
         return np.atleast_1d(F(X, *args))
     
     X = np.asarray(X)
@@ -265,7 +265,7 @@ def jac_approx3(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
 
 
 def jac_approx4(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
-    def Func(X, args=()):
+    def Func(X, *args):
         return np.atleast_1d(F(X, *args))
     X = np.asarray(X)
     Y = np.asarray(Func(X, *args))
@@ -288,7 +288,7 @@ def jac_approx4(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
 
 
 def hess_approx(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False,  mask=None):
-    def Func(X, args=()):
+    def Func(X, *args):
         return np.atleast_1d(F(X, *args))
     X = np.asarray(X)
     Y = np.asarray(Func(X, *args))
-- 
2.43.0


From 6d72dcbfe7d304b4ad3610014279535e48f90635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 75/93] fix: factor model simulation transforms the covariance
 of the aligned estimates

---
 pystatsm/pyfa2/sim_factor_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa2/sim_factor_model.py b/pystatsm/pyfa2/sim_factor_model.py
index a830d7e..906d833 100644
--- a/pystatsm/pyfa2/sim_factor_model.py
+++ b/pystatsm/pyfa2/sim_factor_model.py
@@ -87,7 +87,7 @@ def run(p, m, n_obs, n_rep, rotation_kind='ortho', seed=0):
         theta_a = est.layout.pack(L_a, Phi_a, psi)
         M = alignment_matrix(est.layout, free_mask, perm, signs)
         thetas[r] = theta_a[free_mask]
-        Vs[r] = np.matmul(np.matmul(M, V, M.T))
+        Vs[r] = np.matmul(np.matmul(M, V), M.T)
         L_ests[r], Phi_ests[r], psi_ests[r] = L_a, Phi_a, psi
 
     # ---- theta-level diagnostics --------------------------------------------
-- 
2.43.0


From 9527d35b441561eac6e43e4d71b15a480994220c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 76/93] fix: random factor correlations are one matrix

---
 pystatsm/pyfa2/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa2/simulation.py b/pystatsm/pyfa2/simulation.py
index 7c52563..9db897f 100644
--- a/pystatsm/pyfa2/simulation.py
+++ b/pystatsm/pyfa2/simulation.py
@@ -32,7 +32,7 @@ def generate_loadings(p, m, low=0.4, high=0.9, random=False, rng=None):
 
 def generate_factor_corr(m, rho=0.5, random=False, eta=2.0, rng=None):
     if random:
-        return r_lkj(n=1, dim=m, eta=eta, rng=rng)
+        return r_lkj(n=1, dim=m, eta=eta, rng=rng)[0, 0]
     Phi = rho ** sp.linalg.toeplitz(np.arange(m))
     s = (-1) ** np.arange(m).reshape(-1, 1)
     return s * Phi * s.T
-- 
2.43.0


From c8aada8a1379f1e69505372ef61fee4efd0168fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:33 +0000
Subject: [PATCH 77/93] fix: B-spline smooths can be built

---
 pystatsm/utilities/splines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/splines.py b/pystatsm/utilities/splines.py
index e284575..dcc12cb 100644
--- a/pystatsm/utilities/splines.py
+++ b/pystatsm/utilities/splines.py
@@ -164,11 +164,11 @@ def ccspline_basis(x, knots, F):
     X = A * d1 + B * d2 - A * d3 - B * d4 + C * d5 + D * d6
     return X
 
-def bspline_penalty(all_knots, knots, degree, penalty=2, intercept=False):
+def bspline_penalty(all_knots, knots, degree=3, penalty=2, intercept=False):
     pord = penalty-1
     h1 = np.repeat(np.diff(knots)/pord, pord)
     k1 = np.concatenate((np.array([knots[0]]), h1)).cumsum()
-    G = bspline_basis(k1, all_knots, degree, deriv=2, intercept=False)
+    G = bspline_basis(k1, all_knots, deriv=2, degree=degree)
     a = np.tile(np.linspace(-1, 1, pord+1), pord+1)
     b = np.repeat(np.arange(0, pord+1), pord+1)
     P = (a**b).reshape(pord+1, pord+1, order='F')
-- 
2.43.0


From d9f8fa4e7d5b90ef345d7746c821228e70c4060b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 78/93] fix: LogbLink uses its lower bound argument

---
 pystatsm/pygam/gauls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index eebf2ad..7de7c92 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -22,7 +22,7 @@ from ..utilities.optimizer_utils import MemoizeGradHess
 class LogbLink(Link):
 
     def __init__(self, b=0.01):
-        self.b = 0.01
+        self.b = b
 
     def link(self, mu):
         return np.log(1.0 / mu - self.b)
-- 
2.43.0


From b46c508c5fcef21e8f59ab4e192a1422a837c029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 79/93] fix: GauLS penalty determinant without smooth terms in
 the mean

---
 pystatsm/pygam/gauls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index 7de7c92..31030df 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -661,7 +661,7 @@ class GauLS:
         for i, (r, lds) in enumerate(list(zip(self.m.ranks, self.m.ldS))):
             logdet += r * rho[i] + lds
         for j, (r, lds) in enumerate(list(zip(self.s.ranks, self.s.ldS))):
-            logdet += r * rho[j+i+1] + lds
+            logdet += r * rho[j+len(self.m.ranks)] + lds
         return logdet
 
     def reml(self, rho):
-- 
2.43.0


From 1e449eb688b2b00fb6ab2fa36d77ae70a4d19bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 80/93] fix: GauLS component prediction looks up the scale
 intercept in the scale formula

---
 pystatsm/pygam/gauls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index 31030df..c8b9645 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -915,7 +915,7 @@ class GauLS:
             eta_s = s.evaluate_component_basis(comp, points).dot(self.beta[self.ixs][s.smooths[comp]['ix']])
         else:
             eta_s = np.zeros_like(points)
-        if "Intercept" in m.x_varnames:
+        if "Intercept" in s.x_varnames:
             eta_s = eta_s + self.res.loc["s(Intercept)", "param"]
 
 
-- 
2.43.0


From 562713fc35aca7561db65b81f19b6f9145a8f5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 81/93] fix: GauLS R squared uses the fitted mean

---
 pystatsm/pygam/gauls.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index c8b9645..a37992d 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -1094,12 +1094,11 @@ class GauLS:
                                 columns=['param', f'CI{confint}-', f'CI{confint}+',
                                          'SE', 't', 'p'])
         yhat = self.m.X.dot(self.beta[self.ixm])
-        resids = self.y - yhat
-        ssr = np.sum(resids**2)
         sst =  np.sum((self.y - self.y.mean())**2)
         self.mu = self.m.link.inv_link(yhat)
         self.tau = self.s.link.inv_link(self.s.X.dot(self.beta[self.ixs]))
         self.resids = self.y - self.mu
+        ssr = np.sum(self.resids**2)
         self.pearson_resids = self.resids * self.tau
         self.model_deviance = np.sum(self.pearson_resids**2)
         self.null_deviance = np.sum(((self.y - self.y.mean())*self.tau)**2)
-- 
2.43.0


From 0ed5f54a909ca10239465300b462ee1bb64256fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 82/93] fix: Huber keeps the tuning constant it is given

---
 pystatsm/pyrobust/m_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/m_estimators.py b/pystatsm/pyrobust/m_estimators.py
index 6c00a6d..838acb9 100644
--- a/pystatsm/pyrobust/m_estimators.py
+++ b/pystatsm/pyrobust/m_estimators.py
@@ -86,7 +86,7 @@ class MEstimator(object):
 class Huber(MEstimator):
     
     def __init__(self, c=1.345):
-        self.c = 1.345
+        self.c = c
 
         
     def rho(self, x, c=None):
-- 
2.43.0


From 98b6e7d29198576b563795cebbe668cffb05e16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 83/93] fix: E_psi integrates psi

---
 pystatsm/pyrobust/m_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/m_estimators.py b/pystatsm/pyrobust/m_estimators.py
index 838acb9..810e17c 100644
--- a/pystatsm/pyrobust/m_estimators.py
+++ b/pystatsm/pyrobust/m_estimators.py
@@ -26,7 +26,7 @@ class MEstimator(object):
         return self._normal_ev(f)
     
     def E_psi(self, c=None):
-        f = lambda x: self.rho(x, c) * norm_pdf(x)
+        f = lambda x: self.psi(x, c) * norm_pdf(x)
         return self._normal_ev(f)
         
     def E_phi(self, c=None):
-- 
2.43.0


From ba9120bb7f29fb4ef66a1fc5589a67233f7cbe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 84/93] fix: RobustLM uses its tuning constant

---
 pystatsm/pyrobust/rls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index 5f7800e..1af069e 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -33,7 +33,7 @@ class RobustLM:
         scale_init = np.log(mad(self.y - self.X.dot(beta_init)))
         self.theta_init = np.r_[beta_init, scale_init]
         self.a = 0.5
-        self.f = Huber()
+        self.f = Huber(c=c)
 
         
     def _update_y(self, y):
-- 
2.43.0


From fe8c5b532e8384202367b3455438c856c9401754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 85/93] fix: RobustLM.irwls passes the weights, not their
 roots, to nwls

---
 pystatsm/pyrobust/rls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index 1af069e..d1f6f01 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -119,7 +119,7 @@ class RobustLM:
                 v = (u * self.f.psi(u) -  self.f.rho(u)) * s**2
                 s = np.sqrt(np.sum(v) / ((self.n_obs - self.n_var) * self.E_psi2))
             u = r /s
-            w = np.sqrt(self.f.psi(u) / u)
+            w = self.f.weights(u)
             b_new = nwls(self.X, self.y, w)
             r_new = self.y - self.X.dot(b_new)
             
-- 
2.43.0


From 6c0ecf335aa79d5f59fb1dbed7a9cf119ef6e00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 86/93] fix: RobustLM inference uses scaled residuals

---
 pystatsm/pyrobust/rls.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index d1f6f01..ca9af8e 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -145,8 +145,8 @@ class RobustLM:
         self.scale = np.exp(self.theta[-1])
         self.resids = self.y - self.X.dot(self.beta)
         
-        self.psi_r = self.f.psi(self.resids)
-        self.phi_r = self.f.phi(self.resids)
+        self.psi_r = self.f.psi(self.resids / self.scale)
+        self.phi_r = self.f.phi(self.resids / self.scale)
         
         self.dfe = (self.n_obs-self.n_var)
         
@@ -155,9 +155,9 @@ class RobustLM:
         
         self.k = 1.0 + self.n_var / self.n_obs * np.var(self.phi_r) / self.E_phi**2
         
-        self.k1 = self.k**2 * self.E_psi_sq / self.E_phi**2
-        self.k2 = self.k * self.E_psi_sq / self.E_phi
-        self.k3 = self.E_psi_sq / self.k
+        self.k1 = self.scale**2 * self.k**2 * self.E_psi_sq / self.E_phi**2
+        self.k2 = self.scale**2 * self.k * self.E_psi_sq / self.E_phi
+        self.k3 = self.scale**2 * self.E_psi_sq / self.k
         
         self.XtX = self.X.T.dot(self.X)
         self.G = np.linalg.inv(self.XtX)
-- 
2.43.0


From c66717cecb1638af87610910eb3fe7cf77aafbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 87/93] fix: Qn is the k-th smallest difference between
 distinct observations

---
 pystatsm/pyrobust/dispersion_estimators.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pystatsm/pyrobust/dispersion_estimators.py b/pystatsm/pyrobust/dispersion_estimators.py
index 1125479..8c88168 100644
--- a/pystatsm/pyrobust/dispersion_estimators.py
+++ b/pystatsm/pyrobust/dispersion_estimators.py
@@ -107,9 +107,9 @@ def qn_estimator(x, corrected=True, *args):
     n = len(x)
     a, b = np.tril_indices(n, -1)
     m = np.fabs(x[a] - x[b])
-    h = np.ceil(n / 2) + 1
-    k = int((h * (h - 1)) / 2)
-    m = m[np.argsort(m)[k]]
+    h = n // 2 + 1
+    k = (h * (h - 1)) // 2
+    m = m[np.argsort(m)[k - 1]]
     if corrected:
         m = m*PHI58
     return m
@@ -117,10 +117,10 @@ def qn_estimator(x, corrected=True, *args):
 
 def qn_estimator2(x, corrected=True):
     n = len(x)
-    m = vech(np.fabs(np.subtract.outer(x, x)))
-    h = np.ceil(n / 2) + 1
-    k = int((h * (h - 1)) / 2)
-    m = m[np.argsort(m)[k]]
+    m = np.fabs(np.subtract.outer(x, x))[np.tril_indices(n, -1)]
+    h = n // 2 + 1
+    k = (h * (h - 1)) // 2
+    m = m[np.argsort(m)[k - 1]]
     if corrected:
         m = m*PHI58
     return m
-- 
2.43.0


From 77d18d6fa7ded1309c4c12f12cf109d5f911c317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:10 +0000
Subject: [PATCH 88/93] fix: ElasticNetGLM squares the standardised design

---
 pystatsm/pyglmnet/glmen2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/glmen2.py b/pystatsm/pyglmnet/glmen2.py
index 133224f..7644570 100644
--- a/pystatsm/pyglmnet/glmen2.py
+++ b/pystatsm/pyglmnet/glmen2.py
@@ -91,7 +91,7 @@ class ElasticNetGLM(object):
         self.wobs = wobs
         self.family = family
         self.alpha = alpha
-        self.Xsq = X**2
+        self.Xsq = self.X**2
         self.halc = (1.0 - alpha) / 2.0
         self._categorical = isinstance(family, Binomial)
         
-- 
2.43.0


From 6791535e96f3c9ee392e754675b420fa6d88de03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:10 +0000
Subject: [PATCH 89/93] fix: elnet_grad uses the sign of each coefficient

---
 pystatsm/pyglmnet/gaussian_eln.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/gaussian_eln.py b/pystatsm/pyglmnet/gaussian_eln.py
index 73076b6..f0608a6 100644
--- a/pystatsm/pyglmnet/gaussian_eln.py
+++ b/pystatsm/pyglmnet/gaussian_eln.py
@@ -111,7 +111,7 @@ def elnet(X, y, lambda_, alpha=0.99, b=None, active=None, n_iters=1000, dtol=1e-
 def elnet_grad(b, X, y, lambda_, alpha):
     n = y.shape[0]
     r = y - X.dot(b)
-    g = -1.0 / n * X.T.dot(r) + lambda_ * (1 - alpha) * b + lambda_*alpha
+    g = -1.0 / n * X.T.dot(r) + lambda_ * (1 - alpha) * b + lambda_*alpha * np.sign(b)
     return g
   
 
-- 
2.43.0


From d687bb8ceaccbdaacd9d5151874e87d354328982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:06 +0000
Subject: [PATCH 90/93] fix: lars downdates the factor of the active variables
 only

---
 pystatsm/pyglmnet/lars.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglmnet/lars.py b/pystatsm/pyglmnet/lars.py
index 675f1e9..1b5804e 100644
--- a/pystatsm/pyglmnet/lars.py
+++ b/pystatsm/pyglmnet/lars.py
@@ -46,8 +46,9 @@ def lars_add_var(cj_, j, G, L, C, active, s, ind):
 
 def lars_drop_var(L, betas, active, s, ind, drops, i):
     drop_ix, = np.where(drops)
-    for k in drop_ix:
-        L = chol_downdate(L, k)
+    for j, k in enumerate(drop_ix):
+        m = len(active) - j
+        L[:m, :m] = chol_downdate(L[:m, :m], k - j)
     active_ix = active[drop_ix]
     betas[i, active_ix] = 0.0
     active = active[~drops]
-- 
2.43.0


From 103427f29cc4960fea6b93f5443152caab180284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:39 +0000
Subject: [PATCH 91/93] fix: Polychor accepts categories with gaps between them

---
 pystatsm/pylvcorr/polychoric.py  | 2 +-
 pystatsm/pylvcorr/polychoric2.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylvcorr/polychoric.py b/pystatsm/pylvcorr/polychoric.py
index c5ff611..bd998a8 100644
--- a/pystatsm/pylvcorr/polychoric.py
+++ b/pystatsm/pylvcorr/polychoric.py
@@ -52,7 +52,7 @@ class Polychor(object):
         self.tauo = {}
         self.ncat = {}
         for i in range(self.p):
-            self.uniq[i], self.catt[i] = np.unique(self.X[:, i], return_counts=True)
+            self.uniq[i], self.X[:, i], self.catt[i] = np.unique(self.X[:, i], return_inverse=True, return_counts=True)
             self.cprp[i] = (np.cumsum(self.catt[i])/np.sum(self.catt[i]))[:-1]
             self.tauc[i] = sp.special.ndtri(self.cprp[i])
             self.tauo[i] = np.r_[-1e10, self.tauc[i], 1e10]
diff --git a/pystatsm/pylvcorr/polychoric2.py b/pystatsm/pylvcorr/polychoric2.py
index b4c09e6..3cc65fd 100644
--- a/pystatsm/pylvcorr/polychoric2.py
+++ b/pystatsm/pylvcorr/polychoric2.py
@@ -80,7 +80,7 @@ class Polychor(object):
         self.tauo = {}
         self.ncat = {}
         for i in range(self.p):
-            self.uniq[i], self.catt[i] = np.unique(self.X[:, i], return_counts=True)
+            self.uniq[i], self.X[:, i], self.catt[i] = np.unique(self.X[:, i], return_inverse=True, return_counts=True)
             self.cprp[i] = (np.cumsum(self.catt[i])/np.sum(self.catt[i]))[:-1]
             self.tauc[i] = sp.special.ndtri(self.cprp[i])
             self.tauo[i] = np.r_[-1e10, self.tauc[i], 1e10]
-- 
2.43.0


From baad2be6f7aef71da5b300842ce2e191204c64ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:04 +0000
Subject: [PATCH 92/93] fix: polyserial correlation does not depend on the
 location and scale of the continuous variable

---
 pystatsm/pylvcorr/lvcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylvcorr/lvcorr.py b/pystatsm/pylvcorr/lvcorr.py
index 3896a13..f120b9b 100644
--- a/pystatsm/pylvcorr/lvcorr.py
+++ b/pystatsm/pylvcorr/lvcorr.py
@@ -302,7 +302,7 @@ class Polyserial:
         self.order, self.marginal_counts = order, marginal_counts
         self.tau_arr, self.y_ordered = tau_arr, y_ordered
         self.tau1, self.tau2 = tau1, tau2
-        self.x, self.y = x, y
+        self.x, self.y = (x - np.mean(x)) / np.std(x), y
         
        
         
-- 
2.43.0


From 2c03ff527f0a22d4dc0f4531c6b35688dcf4b96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:04 +0000
Subject: [PATCH 93/93] fix: missing values are not a category of Polychoric

---
 pystatsm/pylvcorr/lvcorr.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pylvcorr/lvcorr.py b/pystatsm/pylvcorr/lvcorr.py
index f120b9b..56b673c 100644
--- a/pystatsm/pylvcorr/lvcorr.py
+++ b/pystatsm/pylvcorr/lvcorr.py
@@ -440,7 +440,8 @@ class Polychoric(object):
                                                             Thresholds[i],
                                                             Thresholds[j]
                                                             )
-            rho_inits[ii] = corr(X[:,i], X[:, j])
+            not_nan = ~(np.isnan(X[:, i]) | np.isnan(X[:, j]))
+            rho_inits[ii] = corr(X[not_nan, i], X[not_nan, j])
             
             
         
@@ -456,12 +457,12 @@ class Polychoric(object):
         self.XThresholds, self.Xtab = XThresholds, Xtab
         
     def _get_threshold(self, x, outer=True):
-        vals, counts = np.unique(x, return_counts=True)
+        vals, counts = np.unique(x[~np.isnan(x)], return_counts=True)
         t_inner = sp.special.ndtri(np.cumsum(counts)[:-1] / np.sum(counts))
         if outer:
             t = np.r_[-1e6, t_inner, 1e6]
         else:
-            t = t
+            t = t_inner
         return t
     
     def _init_crosstab(self, xi, xj, ti=None, tj=None):
-- 
2.43.0

