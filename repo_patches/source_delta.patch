From a98ab98293bef351239bade35962f205c1aa929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 01/39] fix: saving a Kcorrect object needs no np.compat (gone
 in numpy 2)

---
 src/kcorrect/kcorrect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 4a03b6d..298e703 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -740,19 +740,19 @@ class Kcorrect(kcorrect.fitter.Fitter):
         hdu = fits.ImageHDU(self.redshifts, name='REDSHIFTS')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses', np.compat.unicode, 200)])
+        responses_dtype = np.dtype([('responses', str, 200)])
         responses = np.zeros(len(self.responses), dtype=responses_dtype)
         responses['responses'] = np.array(self.responses)
         hdu = fits.BinTableHDU(responses, name='RESPONSES')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses_out', np.compat.unicode, 200)])
+        responses_dtype = np.dtype([('responses_out', str, 200)])
         responses_out = np.zeros(len(self.responses_out), dtype=responses_dtype)
         responses_out['responses_out'] = np.array(self.responses_out)
         hdu = fits.BinTableHDU(responses_out, name='RESPONSES_OUT')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses_map', np.compat.unicode, 200)])
+        responses_dtype = np.dtype([('responses_map', str, 200)])
         responses_map = np.zeros(len(self.responses_map), dtype=responses_dtype)
         responses_map['responses_map'] = np.array(self.responses_map)
         hdu = fits.BinTableHDU(responses_map, name='RESPONSES_MAP')
-- 
2.43.0


From a0db315ada265e8f44919bbc535bbd634f6ee176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 02/39] fix: save the redshift range unrounded and restore
 scalar settings as scalars

---
 src/kcorrect/kcorrect.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 298e703..00eef9d 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -729,7 +729,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         
         hdul = fits.open(filename, mode='update')
         data_dtype = np.dtype([('nredshift', np.int32),
-                               ('redshift_range', np.int32, 2),
+                               ('redshift_range', np.float32, 2),
                                ('abcorrect', bool)])
         data = np.zeros(1, dtype=data_dtype)
         data['nredshift'] = self.nredshift
@@ -788,9 +788,9 @@ class Kcorrect(kcorrect.fitter.Fitter):
         hdul = fits.open(filename)
 
         data = hdul['DATA'].data
-        self.nredshift = data['nredshift']
-        self.redshift_range = data['redshift_range']
-        self.abcorrect = data['abcorrect']
+        self.nredshift = int(data['nredshift'][0])
+        self.redshift_range = np.float32(data['redshift_range'][0])
+        self.abcorrect = bool(data['abcorrect'][0])
 
         self.redshifts = hdul['REDSHIFTS'].data
         self.responses = list(hdul['RESPONSES'].data['responses'])
-- 
2.43.0


From 9901f0e414911aa3c66aaead9c7b622be3e96905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 03/39] fix: fromfits() loads the output responses and resets
 the response mapping

---
 src/kcorrect/kcorrect.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 00eef9d..0f558b6 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -169,12 +169,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
                 self.AmatrixOut = self._calc_Amatrix(responses=self.responses_out)
 
         # Get index map to calculate kcorrection
-        self.imap = np.zeros(len(self.responses_map), dtype=int)
-        for i, response in enumerate(self.responses_map):
-            try:
-                self.imap[i] = self.responses.index(response)
-            except ValueError:
-                raise ValueError("responses_map must contain only responses defined in responses")
+        self._set_imap()
 
         # Initialize cosmology used for derived properties and absmag
         if(cosmo is not None):
@@ -184,6 +179,16 @@ class Kcorrect(kcorrect.fitter.Fitter):
 
         return
 
+    def _set_imap(self):
+        """Set index in responses of each element of responses_map"""
+        self.imap = np.zeros(len(self.responses_map), dtype=int)
+        for i, response in enumerate(self.responses_map):
+            try:
+                self.imap[i] = self.responses.index(response)
+            except ValueError:
+                raise ValueError("responses_map must contain only responses defined in responses")
+        return
+
     def derived(self, redshift=None, coeffs=None, band_shift=0., distance=None):
         """Return derived quantities based on coefficients
 
@@ -798,7 +803,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         self.responses_out = list(hdul['RESPONSES_OUT'].data['responses_out'])
 
         f = kcorrect.response.ResponseDict()
-        for response in self.responses:
+        for response in self.responses + self.responses_out:
             f.load_response(response)
 
         A = hdul['A'].data
@@ -806,6 +811,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         self.Amatrix = self._interpolate_Amatrix(redshifts=self.redshifts, A=A)
         self.AmatrixOut = self._interpolate_Amatrix(redshifts=self.redshifts,
                                                     A=Aout)
+        self._set_imap()
 
         hdul.close()
         return
-- 
2.43.0


From e9c5305ebbcdd9cb8c74ef84e6e2e7c260fe6c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 04/39] fix: Monte Carlo fits outside the redshift range return
 all three results

---
 src/kcorrect/fitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index f18ae1a..f3fb389 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -202,7 +202,8 @@ class Fitter(object):
             else:
                 coeffs_mc = np.zeros((self.templates.nsed, mc),
                                      dtype=np.float32)
-                return(default_zeros, coeffs_mc)
+                maggies_mc = np.zeros((len(maggies), mc), dtype=np.float32)
+                return(default_zeros, coeffs_mc, maggies_mc)
         b = maggies * inverr
 
         try:
-- 
2.43.0


From 99594ed81693b01541598a408609232820ddb7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 05/39] fix: Monte Carlo fit of a one-element array

---
 src/kcorrect/fitter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index f3fb389..7e56482 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -421,10 +421,10 @@ class Fitter(object):
                                                                  ivar=np.squeeze(ivar),
                                                                  mc=mc)
             if(array):
-                coeffs = coeffs.reshape(1, len(coeffs))
+                coeffs = coeffs[np.newaxis, ...]
                 if(mc > 0):
-                    coeffs_mc = coeffs_mc.reshape(1, len(coeffs), mc)
-                    maggies_mc = maggies_mc.reshape(1, len(maggies), mc)
+                    coeffs_mc = coeffs_mc[np.newaxis, ...]
+                    maggies_mc = maggies_mc[np.newaxis, ...]
 
             if(mc > 0):
                 return(coeffs, coeffs_mc, maggies_mc)
-- 
2.43.0


From 75d7a6d5e9e7267746bb2cf9ec849b69ba515668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 06/39] fix: fits with a single band keep the band axis

---
 src/kcorrect/fitter.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index 7e56482..65a3adc 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -410,15 +410,15 @@ class Fitter(object):
 
         # Call single
         if(n == 1):
+            if(array):
+                redshift, maggies, ivar = redshift[0], maggies[0, :], ivar[0, :]
             if(mc == 0):
-                coeffs = self._fit_coeffs(redshift=np.squeeze(redshift),
-                                          maggies=np.squeeze(maggies),
-                                          ivar=np.squeeze(ivar),
-                                          mc=mc)
+                coeffs = self._fit_coeffs(redshift=redshift, maggies=maggies,
+                                          ivar=ivar, mc=mc)
             else:
-                coeffs, coeffs_mc, maggies_mc = self._fit_coeffs(redshift=np.squeeze(redshift),
-                                                                 maggies=np.squeeze(maggies),
-                                                                 ivar=np.squeeze(ivar),
+                coeffs, coeffs_mc, maggies_mc = self._fit_coeffs(redshift=redshift,
+                                                                 maggies=maggies,
+                                                                 ivar=ivar,
                                                                  mc=mc)
             if(array):
                 coeffs = coeffs[np.newaxis, ...]
-- 
2.43.0


From 67a23bdc3fd71b0a3b9d86dce978612990ad82f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 07/39] fix: derived() accepts a distance

---
 src/kcorrect/kcorrect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 0f558b6..5cd776e 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -260,6 +260,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
             (array, n, distance, d1, d2,
              d3) = self._process_inputs(redshift=distance, coeffs=coeffs)
             dfactor = (distance / 1.e-5)**2  # factor relative to 10 pc
+            dm = 2.5 * np.log10(dfactor)
         else:
             dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)
             dfactor = 10.**(0.4 * dm)
-- 
2.43.0


From eb93c82e34337bcf9f821f5c26175b57f4ddd36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 08/39] fix: derived() for arrays when output bands differ from
 input bands

---
 src/kcorrect/kcorrect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 5cd776e..e8e2176 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -312,7 +312,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         ok = rmaggies_solar > 0.
         if(array):
             mtol[ok] = (np.outer(mremain,
-                                 np.ones(len(self.responses), dtype=np.float32))[ok] /
+                                 np.ones(len(self.responses_out), dtype=np.float32))[ok] /
                         rmaggies_solar[ok])
         else:
             mtol[ok] = mremain / rmaggies_solar[ok]
-- 
2.43.0


From 1707098eb633d1b5f7b53beff0e0b3e257905a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 09/39] fix: derived() for bands without a solar magnitude

---
 src/kcorrect/kcorrect.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index e8e2176..24cf368 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -305,7 +305,10 @@ class Kcorrect(kcorrect.fitter.Fitter):
                                               band_shift=band_shift)
 
         for ir, response in enumerate(self.responses_out):
-            solar = 10.**(- 0.4 * (f[response].solar_magnitude + dm))
+            solar_magnitude = f[response].solar_magnitude
+            if(solar_magnitude is None):
+                solar_magnitude = 0.  # leave mtol in per maggy units
+            solar = 10.**(- 0.4 * (solar_magnitude + dm))
             rmaggies_solar[..., ir] = rmaggies_solar[..., ir] / solar
 
         mtol = np.zeros(rmaggies_solar.shape, dtype=np.float32)
-- 
2.43.0


From f4777944bcc55a3e7d5a87f81cba5444b0142c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 10/39] fix: absmag_mc() when output bands differ from input
 bands

---
 src/kcorrect/kcorrect.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 24cf368..779106a 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -677,11 +677,12 @@ class Kcorrect(kcorrect.fitter.Fitter):
         Relies on multiple calls to kcorrect.kcorrect.Kcorrect.absmag() method.
 """
         mc = coeffs_mc.shape[-1]
-        absmag_mc = np.zeros(maggies_mc.shape, dtype=np.float32)
+        shape = maggies_mc.shape[:-2] + (len(self.responses_out), mc)
+        absmag_mc = np.zeros(shape, dtype=np.float32)
         if(reconstruct):
-            absmag_reconstruct_mc = np.zeros(maggies_mc.shape, dtype=np.float32)
+            absmag_reconstruct_mc = np.zeros(shape, dtype=np.float32)
         if(kcorrect):
-            kcorrect_mc = np.zeros(maggies_mc.shape, dtype=np.float32)
+            kcorrect_mc = np.zeros(shape, dtype=np.float32)
         for imc in np.arange(mc, dtype=np.int32):
             out = self.absmag(redshift=redshift, maggies=maggies_mc[..., imc],
                               ivar=ivar, coeffs=coeffs_mc[..., imc], band_shift=band_shift,
-- 
2.43.0


From c2ec9ada6101e8fda2ea9acb193f418d0b8e884f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 11/39] fix: absmag() reconstructs from the band the
 K-correction starts from

---
 src/kcorrect/kcorrect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 779106a..2e10eb8 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -588,8 +588,8 @@ class Kcorrect(kcorrect.fitter.Fitter):
         absmag[bd] = - 9999.
 
         if(reconstruct):
-            omaggies = self.reconstruct_out(redshift=redshift, coeffs=coeffs,
-                                            band_shift=band_shift)
+            omaggies = self.reconstruct(redshift=redshift,
+                                        coeffs=coeffs)[..., self.imap]
             gd = np.where(omaggies > 0.)
             bd = np.where(omaggies <= 0.)
             omags = np.zeros(omaggies.shape, dtype=np.float32)
-- 
2.43.0


From 5469e61f79cb40e074e192786af72ed661ab44b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 12/39] fix: KcorrectGST.to_ab() leaves its inputs alone and
 works without ivar

---
 src/kcorrect/kcorrect.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 2e10eb8..d8db1a9 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -1154,7 +1154,9 @@ class KcorrectGST(Kcorrect):
 
         fit_coeffs() and absmag() call this on their inputs if abcorrect is True.
 """
+        maggies = np.array(maggies, dtype=np.float32)
         if(ivar is not None):
+            ivar = np.array(ivar, dtype=np.float32)
             (smaggies,
              sivar) = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7],
                                                      ivar=ivar[..., 2:7])
@@ -1162,7 +1164,6 @@ class KcorrectGST(Kcorrect):
             ivar[..., 2:7] = sivar
             return(maggies, ivar)
         else:
-            smaggies = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7],
-                                                      ivar=ivar[..., 2:7])
+            smaggies = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7])
             maggies[..., 2:7] = smaggies
             return(maggies)
-- 
2.43.0


From 3a7f22b8b7aa845b8baeb055bdb348efd5251760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 13/39] fix: ResponseDict publishes a response only once it is
 completely loaded

---
 src/kcorrect/response.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index b3998dc..2cf936c 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -108,8 +108,9 @@ class ResponseDict(dict, metaclass=ResponseDictSingleton):
 """
         if((response in self) & (reload is False)):
             return
-        self[response] = Response()
-        self[response].fromdat(filename='{n}.dat'.format(n=response))
+        new = Response()
+        new.fromdat(filename='{n}.dat'.format(n=response))
+        self[response] = new
         return
 
 
-- 
2.43.0


From defb277076e0d86a21cd8ca2eef20734533d912f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 14/39] fix: one ResponseDict even if several threads ask for
 it first

---
 src/kcorrect/response.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 2cf936c..f531451 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -83,8 +83,8 @@ class ResponseDictSingleton(type):
 
     def __call__(cls, *args, **kwargs):
         if cls not in cls._instances:
-            cls._instances[cls] = super(ResponseDictSingleton,
-                                        cls).__call__(*args, **kwargs)
+            cls._instances.setdefault(cls, super(ResponseDictSingleton,
+                                                 cls).__call__(*args, **kwargs))
         return cls._instances[cls]
 
 
-- 
2.43.0


From 0d0a405b5c14147ffe3a510f605d5b9d29fe3be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 15/39] fix: all_responses() does not swallow an interrupt

---
 src/kcorrect/response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index f531451..ac2547c 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -70,7 +70,7 @@ def all_responses(response_dir=os.path.join(kcorrect.KCORRECT_DIR, 'data',
                 if(check_validity):
                     try:
                         f.load_response(response)
-                    except:
+                    except Exception:
                         valid = False
                 if(valid):
                     responses.append(response)
-- 
2.43.0


From cfe730c981a11afcf55faaf090b2dceff0dde218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 16/39] fix: a read error in M50 is not taken for a missing M50

---
 src/kcorrect/template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/template.py b/src/kcorrect/template.py
index dbc6f9a..fb16c17 100644
--- a/src/kcorrect/template.py
+++ b/src/kcorrect/template.py
@@ -396,7 +396,7 @@ class Template(SED):
         self.m1000 = hdul['M1000'].data
         try:
             self.m50 = hdul['M50'].data
-        except:
+        except KeyError:
             self.m50 = self.m300 * 0.
 
         return
-- 
2.43.0


From f76668b8af7a3426467490dd26b4b0d1aab14c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 17/39] fix: a failed set_redshift() leaves the SED as it was

---
 src/kcorrect/template.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/kcorrect/template.py b/src/kcorrect/template.py
index fb16c17..d9579b9 100644
--- a/src/kcorrect/template.py
+++ b/src/kcorrect/template.py
@@ -124,15 +124,17 @@ class SED(object):
                                                     self.nwave))])
         return(sed_dtype)
 
+    def _calc_interp(self, wave, flux):
+        """Returns interpolation function for a spectrum"""
+        return(interpolate.interp1d(wave, flux, kind='cubic',
+                                    bounds_error=False, fill_value=0.))
+
     def set_interp(self):
         """Sets attribute interp to interpolation function"""
         if((self.wave is None) | (self.flux is None)):
             self.interp = None
             return
-        self.interp = interpolate.interp1d(self.wave, self.flux,
-                                           kind='cubic',
-                                           bounds_error=False,
-                                           fill_value=0.)
+        self.interp = self._calc_interp(self.wave, self.flux)
 
         # If set_interp() is called, set flag
         self.interpolate = True
@@ -237,11 +239,16 @@ class SED(object):
 
         Conserves bolometric integral of flux.
 """
-        self.wave = self.restframe_wave * (1. + redshift)
-        self.flux = self.restframe_flux / (1. + redshift)
-        self.redshift = redshift
+        # Change the object only once everything has been calculated
+        wave = self.restframe_wave * (1. + redshift)
+        flux = self.restframe_flux / (1. + redshift)
+        interp = self.interp
         if(self.interpolate):
-            self.set_interp()
+            interp = self._calc_interp(wave, flux)
+        self.wave = wave
+        self.flux = flux
+        self.redshift = redshift
+        self.interp = interp
         return
 
     def plot(self, indx=None, wavelim=None):
-- 
2.43.0


From fcf1740a98ddebc961583527816501472725008e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 18/39] fix: building the table does not redshift templates
 that are in use elsewhere

---
 src/kcorrect/fitter.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index 65a3adc..2e94ae6 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -5,6 +5,7 @@
 # @License: BSD 3-clause (http://www.opensource.org/licenses/BSD-3-Clause)
 
 
+import copy
 import multiprocessing
 
 import numpy as np
@@ -84,15 +85,18 @@ class Fitter(object):
         for response in responses:
             f.load_response(response)
 
+        # Redshift a copy: the templates may be in use elsewhere, and this may fail
+        templates = copy.copy(self.templates)
+
         # Create rmatrix
         rmatrix = np.zeros((self.nredshift,
                             len(responses),
                             self.templates.nsed), dtype=np.float32)
         for iz, z in enumerate(self.redshifts):
-            self.templates.set_redshift(redshift=z)
+            templates.set_redshift(redshift=z)
             for ir, response in enumerate(responses):
-                if(self.templates.interpolate):
-                    rmatrix[iz, ir, :] = f[response].project(sed=self.templates)
+                if(templates.interpolate):
+                    rmatrix[iz, ir, :] = f[response].project(sed=templates)
                 else:
                     # project SEDs in groups if there is a very large # of them
                     nchunk = 1000
@@ -101,8 +105,8 @@ class Fitter(object):
                         ised_end = ised + nchunk
                         if(ised_end > self.templates.nsed):
                             ised_end = self.templates.nsed
-                        rmatrix[iz, ir, ised_start:ised_end] = f[response].project(wave=self.templates.wave,
-                                                                                   flux=self.templates.flux[ised_start:ised_end, :])
+                        rmatrix[iz, ir, ised_start:ised_end] = f[response].project(wave=templates.wave,
+                                                                                   flux=templates.flux[ised_start:ised_end, :])
 
         # Now create Amatrix interpolator
         Amatrix = self._interpolate_Amatrix(redshifts=self.redshifts, A=rmatrix)
-- 
2.43.0


From 792feaa6bdf4005d42e7eef63c47cfe649d1ee2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 19/39] fix: read_basel() closes its file

---
 src/kcorrect/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index 25e984b..2862948 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -66,9 +66,8 @@ def read_basel(filename=None):
        'vturb'
        'xh'
 """
-    fp = open(filename, "r")
-    fpstr = fp.read()
-    fp.close
+    with open(filename, "r") as fp:
+        fpstr = fp.read()
 
     words = fpstr.split()
 
-- 
2.43.0


From 14370f7d1311b2868360620b181fabc59500b9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 20/39] fix: Response.fromfits() reads the data and closes the
 file

---
 src/kcorrect/response.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index ac2547c..2a73473 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -251,8 +251,8 @@ class Response(object):
         ext : str or int
             extension to read from
 """
-        response_hdulist = astropy.io.fits.open(filename)
-        response = response_hdulist[ext].data[0]
+        with astropy.io.fits.open(filename, memmap=False) as response_hdulist:
+            response = response_hdulist[ext].data[0]
         self.nwave = len(response['wave'])
         isort = np.argsort(response['wave'])
         self.wave = response['wave'][isort]
-- 
2.43.0


From 18658bf6cbad03b41b1866cf0857843bfcebc2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 21/39] fix: spectra and templates are read into memory and
 their files closed

---
 src/kcorrect/template.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/kcorrect/template.py b/src/kcorrect/template.py
index d9579b9..7188b00 100644
--- a/src/kcorrect/template.py
+++ b/src/kcorrect/template.py
@@ -162,15 +162,15 @@ class SED(object):
 
         Only imports the first row of the FITS table.
 """
-        sed_hdus = fits.open(filename)
-        self.binimage = ('FLUX' in sed_hdus) & ('WAVE' in sed_hdus)
-        if(self.binimage):
-            self.restframe_wave = sed_hdus['WAVE'].data
-            self.restframe_flux = sed_hdus['FLUX'].data
-        else:
-            sed = sed_hdus[ext].data
-            self.restframe_wave = sed['wave']
-            self.restframe_flux = sed['flux']
+        with fits.open(filename, memmap=False) as sed_hdus:
+            self.binimage = ('FLUX' in sed_hdus) & ('WAVE' in sed_hdus)
+            if(self.binimage):
+                self.restframe_wave = sed_hdus['WAVE'].data
+                self.restframe_flux = sed_hdus['FLUX'].data
+            else:
+                sed = sed_hdus[ext].data
+                self.restframe_wave = sed['wave']
+                self.restframe_flux = sed['flux']
         if(len(self.restframe_flux.shape) > 1):
             nsed = self.restframe_flux.shape[-2]
         else:
@@ -394,17 +394,17 @@ class Template(SED):
     def __init__(self, filename=None, ext='FLUX', interpolate=False):
         super().__init__(filename=filename, ext=ext, interpolate=interpolate)
 
-        hdul = fits.open(filename)
         self.info['filename'] = filename
-        self.intsfh = hdul['INTSFH'].data
-        self.mremain = hdul['MREMAIN'].data
-        self.mets = hdul['METS'].data
-        self.m300 = hdul['M300'].data
-        self.m1000 = hdul['M1000'].data
-        try:
-            self.m50 = hdul['M50'].data
-        except KeyError:
-            self.m50 = self.m300 * 0.
+        with fits.open(filename, memmap=False) as hdul:
+            self.intsfh = hdul['INTSFH'].data
+            self.mremain = hdul['MREMAIN'].data
+            self.mets = hdul['METS'].data
+            self.m300 = hdul['M300'].data
+            self.m1000 = hdul['M1000'].data
+            try:
+                self.m50 = hdul['M50'].data
+            except KeyError:
+                self.m50 = self.m300 * 0.
 
         return
 
-- 
2.43.0


From 515342e1f559dfedb8a7b144feb2e8f26a12804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 22/39] fix: saved Kcorrect files are closed, and read into
 memory on restore

---
 src/kcorrect/kcorrect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index d8db1a9..e28b7e8 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -776,7 +776,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         hdu = fits.ImageHDU(Aout, name='AOUT')
         hdul.append(hdu)
 
-        hdul.writeto(filename, overwrite=True)
+        hdul.close()
         return
 
     def fromfits(self, filename=None):
@@ -795,7 +795,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
 """
         self.templates = kcorrect.template.Template(filename=filename)
 
-        hdul = fits.open(filename)
+        hdul = fits.open(filename, memmap=False)
 
         data = hdul['DATA'].data
         self.nredshift = int(data['nredshift'][0])
-- 
2.43.0


From 4c70a92da24133daebdb32dcb57f6ffe11eacb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:28 +0000
Subject: [PATCH 23/39] fix: derived() works on an unpickled object in a new
 process

---
 src/kcorrect/kcorrect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index e28b7e8..84054d3 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -305,6 +305,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
                                               band_shift=band_shift)
 
         for ir, response in enumerate(self.responses_out):
+            f.load_response(response)
             solar_magnitude = f[response].solar_magnitude
             if(solar_magnitude is None):
                 solar_magnitude = 0.  # leave mtol in per maggy units
-- 
2.43.0


From fec08c8e1888c08097c0816ccf2bf2a1f4773995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:42 +0000
Subject: [PATCH 24/39] fix: K-correction objects keep their own lists of
 responses

---
 src/kcorrect/fitter.py   | 2 +-
 src/kcorrect/kcorrect.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index 2e94ae6..e94a146 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -64,7 +64,7 @@ class Fitter(object):
                  nredshift=2000, abcorrect=False):
         self.abcorrect = abcorrect
         self.Amatrix = None
-        self.responses = responses
+        self.responses = list(responses) if(responses is not None) else None
         self.templates = templates
         self.nredshift = nredshift
         self.redshift_range = np.float32(redshift_range)
diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 84054d3..cce9c9a 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -159,8 +159,8 @@ class Kcorrect(kcorrect.fitter.Fitter):
             if(len(responses_map) != len(responses_out)):
                 raise ValueError("responses_map must have the same number of elements as responses_out")
 
-            self.responses_out = responses_out
-            self.responses_map = responses_map
+            self.responses_out = list(responses_out)
+            self.responses_map = list(responses_map)
 
             # Set up the AmatrixOut for the output responses
             if(self.responses_out == self.responses):
-- 
2.43.0


From 5f2a9e3d0a0276f1f4c64fc27c537e70764ffda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 25/39] fix: SED keeps its own copies of the input arrays

---
 src/kcorrect/template.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/template.py b/src/kcorrect/template.py
index 7188b00..f40f698 100644
--- a/src/kcorrect/template.py
+++ b/src/kcorrect/template.py
@@ -87,8 +87,9 @@ class SED(object):
 
 """
     def __init__(self, filename=None, wave=None, flux=None, ext='FLUX', interpolate=True):
-        self.restframe_wave = wave
-        self.restframe_flux = flux
+        # Keep copies: the caller may reuse the input arrays
+        self.restframe_wave = None if(wave is None) else np.array(wave, subok=True)
+        self.restframe_flux = None if(flux is None) else np.array(flux, subok=True)
         self.filename = filename
         self.interp = None
         self.interpolate = interpolate
-- 
2.43.0


From 0d66bf9d7461f53d2c1aaa642cfe47e0c15011d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 26/39] fix: K-correction objects keep their own redshift range

---
 src/kcorrect/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index e94a146..25f2344 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -67,7 +67,7 @@ class Fitter(object):
         self.responses = list(responses) if(responses is not None) else None
         self.templates = templates
         self.nredshift = nredshift
-        self.redshift_range = np.float32(redshift_range)
+        self.redshift_range = np.array(redshift_range, dtype=np.float32)
         self.redshifts = (self.redshift_range[0] +
                           (self.redshift_range[1] - self.redshift_range[0]) *
                           np.arange(nredshift, dtype=np.float32) /
-- 
2.43.0


From 9bff808242b4471bbbd2dde2365b2f87861ce04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:33 +0000
Subject: [PATCH 27/39] fix: reading a file into a Template reads the masses as
 well

---
 src/kcorrect/template.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/template.py b/src/kcorrect/template.py
index f40f698..9b00359 100644
--- a/src/kcorrect/template.py
+++ b/src/kcorrect/template.py
@@ -393,9 +393,27 @@ class Template(SED):
     be WAVE and FLUX HDUs with binary images.
 """
     def __init__(self, filename=None, ext='FLUX', interpolate=False):
-        super().__init__(filename=filename, ext=ext, interpolate=interpolate)
+        super().__init__(interpolate=interpolate)
 
+        self.filename = filename
         self.info['filename'] = filename
+        self.fromfits(filename=filename, ext=ext)
+
+        return
+
+    def fromfits(self, filename=None, ext='FLUX'):
+        """Read template set from FITS files
+
+        Parameters
+        ----------
+
+        filename : str
+            input file name
+
+        ext : str or int
+            extension to read FLUX from
+"""
+        super().fromfits(filename=filename, ext=ext)
         with fits.open(filename, memmap=False) as hdul:
             self.intsfh = hdul['INTSFH'].data
             self.mremain = hdul['MREMAIN'].data
-- 
2.43.0


From 1e3efb0b29714fa783825fab96fd08e68a27fb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 28/39] fix: a failed read leaves the object it was read into
 as it was

---
 src/kcorrect/kcorrect.py | 11 +++++++++++
 src/kcorrect/response.py | 24 ++++++++++++++++++++++++
 src/kcorrect/template.py | 28 +++++++++++++++-------------
 3 files changed, 50 insertions(+), 13 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index cce9c9a..51bd1f1 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -5,6 +5,7 @@
 # @License: BSD 3-clause (http://www.opensource.org/licenses/BSD-3-Clause)
 
 
+import copy
 import os
 
 import astropy.cosmology
@@ -793,7 +794,17 @@ class Kcorrect(kcorrect.fitter.Fitter):
         -----
 
         Expects format of tofits() output.
+
+        If this fails, the object is left as it was.
 """
+        # Read into a copy: this may fail
+        new = copy.copy(self)
+        new._fromfits(filename=filename)
+        self.__dict__.update(new.__dict__)
+        return
+
+    def _fromfits(self, filename=None):
+        """Input from FITS file, for fromfits()"""
         self.templates = kcorrect.template.Template(filename=filename)
 
         hdul = fits.open(filename, memmap=False)
diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 2a73473..3930c42 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -5,6 +5,7 @@
 # @License: BSD 3-clause (http://www.opensource.org/licenses/BSD-3-Clause)
 
 
+import copy
 import os
 import re
 
@@ -250,7 +251,20 @@ class Response(object):
 
         ext : str or int
             extension to read from
+
+        Notes
+        -----
+
+        If this fails, the object is left as it was.
 """
+        # Read into a copy: this may fail
+        new = copy.copy(self)
+        new._fromfits(filename=filename, ext=ext)
+        self.__dict__.update(new.__dict__)
+        return
+
+    def _fromfits(self, filename=None, ext=1):
+        """Read response from FITS files, for fromfits()"""
         with astropy.io.fits.open(filename, memmap=False) as response_hdulist:
             response = response_hdulist[ext].data[0]
         self.nwave = len(response['wave'])
@@ -274,7 +288,17 @@ class Response(object):
 
         If an absolute path, reads that. If not, looks relative
         to KCORRECT_DIR/python/kcorrect/data/responses
+
+        If this fails, the object is left as it was.
 """
+        # Read into a copy: this may fail
+        new = copy.copy(self)
+        new._fromdat(filename=filename)
+        self.__dict__.update(new.__dict__)
+        return
+
+    def _fromdat(self, filename=None):
+        """Read response from fixed_width file, for fromdat()"""
         if(os.path.isabs(filename)):
             infilename = filename
         else:
diff --git a/src/kcorrect/template.py b/src/kcorrect/template.py
index 9b00359..f029651 100644
--- a/src/kcorrect/template.py
+++ b/src/kcorrect/template.py
@@ -5,6 +5,8 @@
 # @License: BSD 3-clause (http://www.opensource.org/licenses/BSD-3-Clause)
 
 
+import copy
+
 import astropy.io.fits as fits
 import matplotlib.pyplot as plt
 import numpy as np
@@ -162,7 +164,17 @@ class SED(object):
             flux - an [nsed, nwave] array of fluxes
 
         Only imports the first row of the FITS table.
+
+        If this fails, the object is left as it was.
 """
+        # Read into a copy: this may fail
+        new = copy.copy(self)
+        new._fromfits(filename=filename, ext=ext)
+        self.__dict__.update(new.__dict__)
+        return
+
+    def _fromfits(self, filename=None, ext='FLUX'):
+        """Read SED from FITS files, for fromfits()"""
         with fits.open(filename, memmap=False) as sed_hdus:
             self.binimage = ('FLUX' in sed_hdus) & ('WAVE' in sed_hdus)
             if(self.binimage):
@@ -401,19 +413,9 @@ class Template(SED):
 
         return
 
-    def fromfits(self, filename=None, ext='FLUX'):
-        """Read template set from FITS files
-
-        Parameters
-        ----------
-
-        filename : str
-            input file name
-
-        ext : str or int
-            extension to read FLUX from
-"""
-        super().fromfits(filename=filename, ext=ext)
+    def _fromfits(self, filename=None, ext='FLUX'):
+        """Read template set from FITS files, for fromfits()"""
+        super()._fromfits(filename=filename, ext=ext)
         with fits.open(filename, memmap=False) as hdul:
             self.intsfh = hdul['INTSFH'].data
             self.mremain = hdul['MREMAIN'].data
-- 
2.43.0


From aa5ff90ca352aebffd7d2eea2d306bfa1a486125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:19 +0000
Subject: [PATCH 29/39] fix: effective wavelengths of bandpasses that do not
 end at zero

trapezoid() was called with x and y exchanged, which gives the same answer only
if the integrand vanishes at both ends (vimos_U: 3558 instead of 3712).
---
 src/kcorrect/response.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 3930c42..80a30d6 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -449,11 +449,11 @@ class Response(object):
 
         # Perform integration for numerator
         integrand_numer = np.log(wave) * response / wave
-        numer = integrate.trapezoid(wave, integrand_numer)
+        numer = integrate.trapezoid(integrand_numer, wave)
 
         # Perform integration for denominator
         integrand_denom = response / wave
-        denom = integrate.trapezoid(wave, integrand_denom)
+        denom = integrate.trapezoid(integrand_denom, wave)
 
         # Set effective wavelength
         self.lambda_eff = np.exp(numer / denom)
-- 
2.43.0


From 8417bfea265ae44e64e5bf7ca747724f93be5e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:19 +0000
Subject: [PATCH 30/39] fix: projection of a spectrum that ends inside a
 bandpass

x and y of trapezoid() were exchanged here as well: if the bandpass does not
end at zero where the spectrum does not reach, the normalization was wrong.
---
 src/kcorrect/response.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 80a30d6..5d6c0d4 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -417,17 +417,17 @@ class Response(object):
         numer = np.zeros(nsed, dtype=np.float32)
         if(nsed == 1):
             integrand_numer = integrate_sed * integrate_response * integrate_wave
-            numer = integrate.trapezoid(integrate_wave, np.squeeze(integrand_numer))
+            numer = integrate.trapezoid(np.squeeze(integrand_numer), integrate_wave)
         else:
             for ised in np.arange(nsed, dtype=int):
                 integrand_numer = integrate_sed[ised, :] * integrate_response * integrate_wave
-                numer[ised] = integrate.trapezoid(integrate_wave,
-                                                  np.squeeze(integrand_numer))
+                numer[ised] = integrate.trapezoid(np.squeeze(integrand_numer),
+                                                  integrate_wave)
 
         # Perform integration for denominator
         integrand_denom = (kcorrect.utils.sed_ab(integrate_wave) *
                            integrate_response * integrate_wave)
-        denom = integrate.trapezoid(integrate_wave, integrand_denom)
+        denom = integrate.trapezoid(integrand_denom, integrate_wave)
 
         # AB maggies are projection of SED onto response divided by same
         # projection for the AB source.
-- 
2.43.0


From 2930a90888e98878d4f2f0ca406335144589c67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:19 +0000
Subject: [PATCH 31/39] fix: projection onto a bandpass narrower than the
 sampling of the spectrum

If no sample of the spectrum was inside the bandpass, 0 was returned as if the
bandpass were outside the range of the spectrum.
---
 src/kcorrect/response.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 5d6c0d4..1ad745e 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -396,15 +396,18 @@ class Response(object):
             nsed = sed.nsed
 
         # Find SED wavelengths to integrate over
-        keep = (sed_wave >= self.wave[0]) & (sed_wave <= self.wave[-1])
-        ikeep = np.where(keep)[0]
-        if(len(ikeep) == 0):
+        if((sed_wave[-1] < self.wave[0]) | (sed_wave[0] > self.wave[-1])):
             return(0.)
+        keep = (sed_wave >= self.wave[0]) & (sed_wave <= self.wave[-1])
 
-        if(ikeep[0] > 0):
-            keep[ikeep[0] - 1] = 1
-        if(ikeep[-1] < len(sed_wave) - 1):
-            keep[ikeep[-1] + 1] = 1
+        # Include the points on either side, if any (which may be the only
+        # ones if the spectrum is sampled more coarsely than the bandpass)
+        iblue = np.where(sed_wave < self.wave[0])[0]
+        if(len(iblue) > 0):
+            keep[iblue[-1]] = 1
+        ired = np.where(sed_wave > self.wave[-1])[0]
+        if(len(ired) > 0):
+            keep[ired[0]] = 1
 
         # Find full grid of wavelengths for integration
         integrate_wave = np.unique(np.append(sed_wave[keep], self.wave))
-- 
2.43.0


From 45e324e54cc2b782e36c045ee620f6b80db31ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:19 +0000
Subject: [PATCH 32/39] fix: projection of several spectra onto a bandpass
 outside their range

A single 0 was returned instead of one per spectrum.
---
 src/kcorrect/response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 1ad745e..e7b4190 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -397,7 +397,7 @@ class Response(object):
 
         # Find SED wavelengths to integrate over
         if((sed_wave[-1] < self.wave[0]) | (sed_wave[0] > self.wave[-1])):
-            return(0.)
+            return(np.squeeze(np.zeros(nsed, dtype=np.float32)))
         keep = (sed_wave >= self.wave[0]) & (sed_wave <= self.wave[-1])
 
         # Include the points on either side, if any (which may be the only
-- 
2.43.0


From 8f3e03ac4fe5efa81f6c5ec1191bb7868c1a351b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:46 +0000
Subject: [PATCH 33/39] fix: the redshift grid reaches the end of the redshift
 range

In one in twenty configurations the last grid point was rounded to just below
redshift_range[1], and an object at that redshift was treated as out of range.
---
 src/kcorrect/fitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index 25f2344..e04e4c5 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -72,6 +72,8 @@ class Fitter(object):
                           (self.redshift_range[1] - self.redshift_range[0]) *
                           np.arange(nredshift, dtype=np.float32) /
                           np.float32(nredshift - 1))
+        # Rounding must not leave the end of the range outside the grid
+        self.redshifts[-1] = self.redshift_range[1]
         return
 
     def _interpolate_Amatrix(self, redshifts=None, A=None):
-- 
2.43.0


From 883b5b60cd0ea414b0058f24178b493c99bf6503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:46 +0000
Subject: [PATCH 34/39] fix: absmag() and derived() for empty catalogues

All other methods return empty arrays.
---
 src/kcorrect/kcorrect.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 51bd1f1..cc88724 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -190,6 +190,12 @@ class Kcorrect(kcorrect.fitter.Fitter):
                 raise ValueError("responses_map must contain only responses defined in responses")
         return
 
+    def _distmod(self, redshift):
+        """Distance modulus in mag (distmod() does not take empty arrays)"""
+        if(np.size(redshift) == 0):
+            return(np.zeros(np.shape(redshift), dtype=np.float32))
+        return(self.cosmo.distmod(redshift).to_value(astropy.units.mag))
+
     def derived(self, redshift=None, coeffs=None, band_shift=0., distance=None):
         """Return derived quantities based on coefficients
 
@@ -263,7 +269,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
             dfactor = (distance / 1.e-5)**2  # factor relative to 10 pc
             dm = 2.5 * np.log10(dfactor)
         else:
-            dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)
+            dm = self._distmod(redshift)
             dfactor = 10.**(0.4 * dm)
 
         intsfh = coeffs.dot(self.templates.intsfh) * dfactor
@@ -564,7 +570,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
             dfactor = (distance / 1.e-5)**2  # factor relative to 10 pc
             dm = 2.5 * np.log10(dfactor)
         else:
-            dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)
+            dm = self._distmod(redshift)
 
         k = self.kcorrect(redshift=redshift, coeffs=coeffs,
                           band_shift=band_shift)
-- 
2.43.0


From 5d03105f1d358f4daed9b261d20363aba2ca4aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:46 +0000
Subject: [PATCH 35/39] fix: absmag() limits are -9999 if all coefficients are
 zero

As documented; the limit had been calculated without a K-correction.
---
 src/kcorrect/kcorrect.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index cc88724..4355022 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -611,9 +611,10 @@ class Kcorrect(kcorrect.fitter.Fitter):
 
         if(limit):
             absmag_limit = np.zeros(use_maggies.shape, dtype=np.float32) - 9999.
-            gd = np.where(use_ivar > 0.)
-            bd = np.where(use_ivar <= 0.)
-            
+            fitted = coeffs.sum(axis=-1, keepdims=True) > 0.
+            gd = np.where((use_ivar > 0.) & fitted)
+            bd = np.where((use_ivar <= 0.) | (fitted == False))
+
             lmags = np.zeros(use_maggies.shape, dtype=np.float32)
             lmags[gd] = - 2.5 * np.log10(1. / np.sqrt(use_ivar[gd]))
 
-- 
2.43.0


From ad8ff46de9b774eaa661c59f8713e050022c0218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:46 +0000
Subject: [PATCH 36/39] fix: sdss_asinh_to_maggies() corrects the errors for
 extinction as well

The fluxes were scaled but not their errors, so that extinguished bands got
too much weight in fit_coeffs_asinh().
---
 src/kcorrect/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index 2862948..0bf533a 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -306,6 +306,7 @@ def sdss_asinh_to_maggies(mag=None, mag_err=None, extinction=None):
                                                 - (0.4 * np.log(10.) *
                                                    mag[..., k])) *
                            0.4 * np.log(10.) * mag_err[..., k])
+            maggies_err = maggies_err * 10.**(0.4 * extinction[..., k])
             maggies_ivar[..., k] = 1. / maggies_err**2
 
     if(mag_err is None):
-- 
2.43.0


From ac1502e93c3b848344191c12c1627114b721e5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:36 +0000
Subject: [PATCH 37/39] fix: reconstruct() and kcorrect() at the ends of the
 redshift range

The rounding of (1 + z) - 1 could carry a redshift at the end of the range
out of it.
---
 src/kcorrect/fitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index e04e4c5..5bc87cd 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -499,7 +499,8 @@ class Fitter(object):
 
         # Consider blueward shift of bandpass due to redshift
         # of observation and due to band_shift
-        shift = (1. + redshift) * (1. + band_shift) - 1.
+        # (written so that it is exactly redshift if band_shift is 0)
+        shift = redshift * (1. + band_shift) + band_shift
 
         # Calculate maggies
         try:
-- 
2.43.0


From 5a42f192dcde68987297699869e2211369e008a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:23 +0000
Subject: [PATCH 38/39] fix: read_basel() refuses files that do not contain
 complete models

---
 src/kcorrect/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index 0bf533a..ef1ea5e 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -73,7 +73,9 @@ def read_basel(filename=None):
 
     nwave = 1221
 
-    nunits = (len(words) - nwave) // (nwave + 6)
+    nunits, nleft = divmod(len(words) - nwave, nwave + 6)
+    if((nunits < 1) | (nleft != 0)):
+        raise ValueError("{f} does not contain complete models".format(f=filename))
 
     wavestr = words[0:nwave]
     wave = np.array([np.float32(x) for x in wavestr], dtype=np.float32)
-- 
2.43.0


From 780f14a912023affe39b50e89e8ec3f0adb4566c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:27 +0000
Subject: [PATCH 39/39] fix: band tables mixed two versions of a response
 reloaded meanwhile by another thread

---
 src/kcorrect/fitter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index 5bc87cd..9ae7e10 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -86,6 +86,7 @@ class Fitter(object):
         f = kcorrect.response.ResponseDict()
         for response in responses:
             f.load_response(response)
+        bands = [f[response] for response in responses]
 
         # Redshift a copy: the templates may be in use elsewhere, and this may fail
         templates = copy.copy(self.templates)
@@ -96,9 +97,9 @@ class Fitter(object):
                             self.templates.nsed), dtype=np.float32)
         for iz, z in enumerate(self.redshifts):
             templates.set_redshift(redshift=z)
-            for ir, response in enumerate(responses):
+            for ir, band in enumerate(bands):
                 if(templates.interpolate):
-                    rmatrix[iz, ir, :] = f[response].project(sed=templates)
+                    rmatrix[iz, ir, :] = band.project(sed=templates)
                 else:
                     # project SEDs in groups if there is a very large # of them
                     nchunk = 1000
@@ -107,8 +108,8 @@ class Fitter(object):
                         ised_end = ised + nchunk
                         if(ised_end > self.templates.nsed):
                             ised_end = self.templates.nsed
-                        rmatrix[iz, ir, ised_start:ised_end] = f[response].project(wave=templates.wave,
-                                                                                   flux=templates.flux[ised_start:ised_end, :])
+                        rmatrix[iz, ir, ised_start:ised_end] = band.project(wave=templates.wave,
+                                                                           flux=templates.flux[ised_start:ised_end, :])
 
         # Now create Amatrix interpolator
         Amatrix = self._interpolate_Amatrix(redshifts=self.redshifts, A=rmatrix)
-- 
2.43.0

