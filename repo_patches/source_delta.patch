From a2677e6410c63071ea0a72eff4f6212411f0e1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 01/97] fix: use the vertical focal-plane step for the eta axis
 in mft_f2p

---
 falco/prop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/prop.py b/falco/prop.py
index 1b91514..23c43e9 100644
--- a/falco/prop.py
+++ b/falco/prop.py
@@ -158,7 +158,7 @@ def mft_f2p(E_foc, fl, wavelength, dxi, deta, dx, N, centering='pixel'):
 
     # Focal-plane coordinates
     xi = util.create_axis(Nxi, dxi, centering=centering)[:, None]  # Broadcast to column vector
-    eta = util.create_axis(Neta, dxi, centering=centering)[None, :]  # Broadcast to row vector
+    eta = util.create_axis(Neta, deta, centering=centering)[None, :]  # Broadcast to row vector
 
     # Pupil-plane coordinates
     x = util.create_axis(N, dx, centering=centering)[None, :]  # Broadcast to row vector
-- 
2.43.0


From 677ab55787272d1e0ec90a9567e78722308e331e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 02/97] fix: index syntax and merge of config objects see
 values set as attributes

---
 falco/config/Object.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/falco/config/Object.py b/falco/config/Object.py
index 4c2244a..b0a46ae 100644
--- a/falco/config/Object.py
+++ b/falco/config/Object.py
@@ -19,6 +19,9 @@ class Object:
         self.__dict__ = {"data": data}
 
     def merge(self, **kwargs):
+        for key in kwargs:
+            if key in self.__dict__ and key != 'data':
+                self.data[key] = self.__dict__.pop(key)
         deepmerge.always_merger.merge(self.data, kwargs)
 
     def __getattr__(self, item):
@@ -39,9 +42,13 @@ class Object:
         return self.data[item]
 
     def __getitem__(self, item):
+        if item in self.__dict__ and item != 'data':
+            return self.__dict__[item]
         return self.__getattr__(item)
 
     def __setitem__(self, key, value):
+        if key != 'data':
+            self.__dict__.pop(key, None)
         self.data[key] = value
 
     def __eq__(self, other):
-- 
2.43.0


From fb584da84a51fbd622f716c6d15da1f37a1f9a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 03/97] fix: parsing a FALCO yaml string no longer changes
 yaml.SafeLoader globally

---
 falco/config/yaml_loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/falco/config/yaml_loader.py b/falco/config/yaml_loader.py
index 9c971a3..3148c67 100644
--- a/falco/config/yaml_loader.py
+++ b/falco/config/yaml_loader.py
@@ -38,7 +38,9 @@ def _eval_constructor(eval_globals, eval_locals):
 
 def _get_loader(eval_globals, eval_locals, ctors_dict):
     """Add constructors to PyYAML loader."""
-    loader = yaml.SafeLoader
+    class loader(yaml.SafeLoader):
+        """A private loader class, so that yaml.SafeLoader itself stays unchanged."""
+
     loader.add_constructor(u'tag:yaml.org,2002:map', object_constructor(Object))
     loader.add_constructor("!eval", _eval_constructor(eval_globals, eval_locals))
 
-- 
2.43.0


From 7f63a7f67a6c9747e1cc027a513ce97ab7e66f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 04/97] fix: from_yaml no longer writes into the caller's
 context dictionary

---
 falco/config/ModelParameters.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/falco/config/ModelParameters.py b/falco/config/ModelParameters.py
index 3441450..c61adc5 100755
--- a/falco/config/ModelParameters.py
+++ b/falco/config/ModelParameters.py
@@ -245,8 +245,7 @@ class ModelParameters(Object):
 
         result = ModelParameters()
 
-        if context is None:
-            context = {}
+        context = {} if context is None else dict(context)
         context['mp'] = result
 
         data = load_from_str(
-- 
2.43.0


From eebd3313b6e84ebbd28b4432cd17be23ac54e4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 05/97] fix: bin_downsample raises its ValueError for
 indivisible sizes

---
 falco/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/util.py b/falco/util.py
index 00fd321..0224312 100644
--- a/falco/util.py
+++ b/falco/util.py
@@ -566,7 +566,7 @@ def bin_downsample(Ain, dsfac):
     # Array Sizes
     ny0, nx0 = Ain.shape
     if (nx0 % dsfac != 0) or (ny0 % dsfac != 0):
-        ValueError('The size of Ain must be divisible by dsfac.')
+        raise ValueError('The size of Ain must be divisible by dsfac.')
 
     nx1 = int(nx0/dsfac)
     ny1 = int(ny0/dsfac)
-- 
2.43.0


From 5eabb256339697be5b495dd73fe49250a249f9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 06/97] fix: pad_crop accepts numpy integers in outsize, as
 documented

---
 falco/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/util.py b/falco/util.py
index 0224312..f03998a 100644
--- a/falco/util.py
+++ b/falco/util.py
@@ -224,7 +224,7 @@ def pad_crop(arrayIn, outsize, extrapval=0):
     try:
         if len(sh1) != 2:
             raise TypeError('Output dimensions must have 2 elements')
-        if (not isinstance(sh1[0], int)) or (not isinstance(sh1[1], int)):
+        if (not isinstance(sh1[0], int_types)) or (not isinstance(sh1[1], int_types)):
             raise TypeError('Output dimensions must be integers')
         if (sh1[0] <= 0) or (sh1[1] <= 0):
             raise TypeError('Output dimensions must be positive ' + 'integers')
-- 
2.43.0


From 52a4bf8ebb122e8ace5be03db37b4caede0e4975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 07/97] fix: falco_gen_ellipse applies magFac at the
 antialiased edge too

---
 falco/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/mask.py b/falco/mask.py
index 16075a5..3c23176 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -1720,7 +1720,7 @@ def falco_gen_ellipse(inputs):
 
         xCenter = X[grayInds[0, iInterior], grayInds[1, iInterior]]
         yCenter = Y[grayInds[0, iInterior], grayInds[1, iInterior]]
-        RHOup = 0.5*np.sqrt(
+        RHOup = 1/magFac*0.5*np.sqrt(
         1/(radiusX)**2*(np.cos(clockingRadians)*(Xup+xCenter) +
                         np.sin(clockingRadians)*(Yup+yCenter))**2
         + 1/(radiusY)**2*(np.sin(clockingRadians)*(Xup+xCenter) -
-- 
2.43.0


From 49b3e4c1637433f548dfe54225c3e7e91f2dbea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 08/97] fix: prop_irregular_polygon handles vertices outside
 the grid

---
 falco/proper/prop_irregular_polygon.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/falco/proper/prop_irregular_polygon.py b/falco/proper/prop_irregular_polygon.py
index 8604703..583b3a0 100644
--- a/falco/proper/prop_irregular_polygon.py
+++ b/falco/proper/prop_irregular_polygon.py
@@ -125,14 +125,18 @@ def prop_irregular_polygon(wf, xvert, yvert, **kwargs):
             if y > np.max(yp):
                 break
             
-            if y >= yp[leftnext]:
+            nstep = 0
+            while y >= yp[leftnext] and nstep < nvert:
+                nstep += 1
                 left = leftnext
                 if left != nvert-1:
                     leftnext = left + 1
                 else:
                     leftnext = 0
                     
-            if y >= yp[rightnext]:
+            nstep = 0
+            while y >= yp[rightnext] and nstep < nvert:
+                nstep += 1
                 right = rightnext
                 if right != 0:
                     rightnext = right - 1
@@ -157,9 +161,9 @@ def prop_irregular_polygon(wf, xvert, yvert, **kwargs):
             xrightpix = int(np.round(xright))
             
             if xleftpix != xrightpix:
-                if xleftpix >= 0:
+                if xleftpix >= 0 and xleftpix < ngrid:
                     image[ypix,xleftpix] = image[ypix,xleftpix] + mag * ((xleftpix + 0.5) - xleft)
-                if xrightpix < ngrid:
+                if xrightpix >= 0 and xrightpix < ngrid:
                     image[ypix,xrightpix] = image[ypix,xrightpix] + mag * (xright - (xrightpix - 0.5))
                 if (xrightpix - xleftpix) > 1:
                     if xleftpix+1 < 0:
@@ -168,9 +172,9 @@ def prop_irregular_polygon(wf, xvert, yvert, **kwargs):
                         imin = xleftpix+1
                         
                     if xrightpix >= ngrid:
-                        imax = ngrid - 1 
+                        imax = ngrid
                     else:
-                        imax = xrightpix
+                        imax = max(xrightpix, 0)
                     image[ypix,imin:imax] = image[ypix,imin:imax] + mag
             else:
                 if xleftpix >= 0 and xleftpix < ngrid:
-- 
2.43.0


From f63f6ee02e91f214a05882943a498a3443ee5f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 09/97] fix: prop_polygon handles vertices outside the grid

---
 falco/proper/prop_polygon.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/falco/proper/prop_polygon.py b/falco/proper/prop_polygon.py
index 321df7d..608080b 100644
--- a/falco/proper/prop_polygon.py
+++ b/falco/proper/prop_polygon.py
@@ -140,10 +140,9 @@ def prop_polygon(wf, nvert, rad, xc = np.nan, yc = np.nan, **kwargs):
     else:
         imin = int(np.round(np.min(yp)))
         
-    if int(np.round(np.max(yp))) > ngrid:
-        imax = ngrid            
-    else:
-        imax = int(np.round(np.max(yp))) + 1   
+    imax = int(np.round(np.max(yp))) + 1
+    if imax > ngrid:
+        imax = ngrid
     
     for ypix in range(imin, imax):
         for ysub in range(0, mag):
@@ -154,14 +153,18 @@ def prop_polygon(wf, nvert, rad, xc = np.nan, yc = np.nan, **kwargs):
             if y > np.max(yp):
                 break
             
-            if y >= yp[leftnext]:
+            nstep = 0
+            while y >= yp[leftnext] and nstep < nvert:
+                nstep += 1
                 left = leftnext
                 if left != nvert-1:
                     leftnext = left + 1
                 else:
                     leftnext = 0
                     
-            if y >= yp[rightnext]:
+            nstep = 0
+            while y >= yp[rightnext] and nstep < nvert:
+                nstep += 1
                 right = rightnext
                 if right != 0:
                     rightnext = right - 1
@@ -186,9 +189,9 @@ def prop_polygon(wf, nvert, rad, xc = np.nan, yc = np.nan, **kwargs):
             xrightpix = int(np.round(xright))
             
             if xleftpix != xrightpix:
-                if xleftpix >= 0:
+                if xleftpix >= 0 and xleftpix < ngrid:
                     image[ypix,xleftpix] = image[ypix,xleftpix] + mag * ((xleftpix + 0.5) - xleft)
-                if xrightpix < ngrid:
+                if xrightpix >= 0 and xrightpix < ngrid:
                     image[ypix,xrightpix] = image[ypix,xrightpix] + mag * (xright - (xrightpix - 0.5))
                 if (xrightpix - xleftpix) > 1:
                     if xleftpix+1 < 0:
@@ -197,9 +200,9 @@ def prop_polygon(wf, nvert, rad, xc = np.nan, yc = np.nan, **kwargs):
                         imin = xleftpix+1
                         
                     if xrightpix >= ngrid:
-                        imax = ngrid - 1 
+                        imax = ngrid
                     else:
-                        imax = xrightpix
+                        imax = max(xrightpix, 0)
                     image[ypix,imin:imax] = image[ypix,imin:imax] + mag
             else:
                 if xleftpix >= 0 and xleftpix < ngrid:
-- 
2.43.0


From f94e4d8c2c434e97460882700054fe864fe1892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 10/97] fix: LUVOIR-B pupil honours its 180-degree rotation
 flag; WFIRST pupil keeps the caller's options

---
 falco/mask.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/falco/mask.py b/falco/mask.py
index 3c23176..14c0e06 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -352,6 +352,7 @@ def falco_gen_pupil_WFIRST_CGI_180718(Nbeam, centering, changes={}):
     check.real_positive_scalar(Nbeam, 'Nbeam', TypeError)
     check.centering(centering)
     check.dictionary(changes, 'changes', TypeError)
+    changes = dict(changes)  # never edit the caller's dictionary
 
     OD = 1.000130208333333
     xcOD = 8.680555555555557e-06
@@ -1227,6 +1228,8 @@ def falco_gen_pupil_LUVOIR_B(inputs, **kwargs):
                                      ROTATION=clockDeg)
 
     mask = np.fft.ifftshift(np.abs(bm.wfarr)) * ap
+    if flagRot180deg:
+        mask = np.rot90(mask, 2)
 
     return mask
 
-- 
2.43.0


From 16cb258a24b0957a51645adf466cf38db52bf8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 11/97] fix: interpixel WFIRST pupil builds its coordinates on
 the array, not the beam

---
 falco/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/mask.py b/falco/mask.py
index 14c0e06..44d146f 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -453,7 +453,7 @@ def falco_gen_pupil_WFIRST_CGI_180718(Nbeam, centering, changes={}):
         Narray = ceil_even(Nbeam*np.max(2*np.abs((xShear, yShear))) + magFac*Nbeam)
 
     if centering.lower() == 'interpixel':
-        xs = np.linspace(-(Nbeam-1)/2, (Nbeam-1)/2, Nbeam)/Nbeam
+        xs = np.linspace(-(Narray-1)/2, (Narray-1)/2, Narray)/Nbeam
     else:
         xs = np.linspace(-(Narray/2), Narray/2-1, Narray)/Nbeam
 
-- 
2.43.0


From af72d8f37f4767fb3ee78f616608445f5df28766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 12/97] fix: segmented-mirror field draws the present segments
 with their piston and tilt phases

---
 falco/hexsegmirror.py | 14 ++++++--------
 falco/mask.py         |  1 +
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/falco/hexsegmirror.py b/falco/hexsegmirror.py
index d4b3b43..bf36cba 100644
--- a/falco/hexsegmirror.py
+++ b/falco/hexsegmirror.py
@@ -69,11 +69,9 @@ def add_hex_segment( centerRow, centerColumn, numRings, apDia, wGap, piston, til
     c = np.exp(-(RHOprime*np.cos(THETA+np.pi/6)/(hexFlatDiam/2))**power)
     HEXamp = a*b*c
     
-#    HEXphz = and(and(RHOprime*sin(THETA)<=(hexSep/2),RHOprime*cos(THETA-pi/6)<=(hexSep/2)),RHOprime*cos(THETA+pi/6)<=(hexSep/2))
-#            *np.exp(1i*2*pi*piston)
-#            *np.exp(1i*2*pi*tiltx/apDia*(X-centerColumn))
-#            *np.exp(1i*2*pi*tilty/apDia*(Y-centerRow))
-    HEXphz = 1.
+    HEXphz = (np.exp(1j*2*np.pi*piston)
+              * np.exp(1j*2*np.pi*tiltx/apDia*(X-centerColumn))
+              * np.exp(1j*2*np.pi*tilty/apDia*(Y-centerRow)))
             
     return arrayIn + HEXamp*HEXphz
 
@@ -104,7 +102,7 @@ def get_field( hexMirrorDict ):
         missingSegments = np.ones(count_segments( numRings ),)
     
     N1 = 2**falco.util.nextpow2(apDia)
-    OUT = np.zeros((N1,N1))
+    OUT = np.zeros((N1, N1), dtype=complex)
     
     hexFlatDiam = (apDia-numRings*2*wGap)/(2*numRings+1)
     hexSep = hexFlatDiam + wGap
@@ -115,7 +113,7 @@ def get_field( hexMirrorDict ):
         cenrow = ringNum*hexSep
         cencol = 0
         
-        if(missingSegments[segNum]==0):
+        if(missingSegments[segNum]==1):
             OUT = add_hex_segment( cenrow, cencol, numRings, apDia, 
                                              wGap, pistons[segNum], tiltxs[segNum], tiltys[segNum], OUT)
         segNum = segNum + 1
@@ -135,7 +133,7 @@ def get_field( hexMirrorDict ):
                     #%disp(['Finished ring ',num2str(ringNum)]);
                     pass
                 else:
-                    if(missingSegments[segNum]==0):
+                    if(missingSegments[segNum]==1):
                         OUT = add_hex_segment( cenrow, cencol, numRings, apDia, 
                                                          wGap, pistons[segNum], tiltxs[segNum], tiltys[segNum], OUT);
                         pass
diff --git a/falco/mask.py b/falco/mask.py
index 44d146f..43ecee6 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -1560,6 +1560,7 @@ def falco_gen_pupil_customHex(inputs):
     [X, Y] = np.meshgrid(np.arange(-N/2, N/2), np.arange(-N/2, N/2))
     [THETA, RHO] = falco.util.cart2pol(X, Y)
 
+    inputs = dict(inputs)  # never edit the caller's dictionary
     inputs["apDia"] = inputs["Nbeam"]
     if('pistons' in inputs.keys()):
         pupil0 = falco.hexsegmirror.get_field(inputs)
-- 
2.43.0


From 1c662c2150a05398d7a11545526f354f72733654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 13/97] fix: scoring region uses the vertical offset given for
 it

---
 falco/setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/setup.py b/falco/setup.py
index a03b259..880597a 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -1122,7 +1122,7 @@ def falco_configure_dark_hole_region(mp):
             mp.Fend.xiOffset = np.atleast_1d(mp.Fend.xiOffset)
             SCORE["xiOffset"] = mp.Fend.xiOffset[iZone]
         if hasattr(mp.Fend, 'etaOffset'):
-            mp.Fend.etaOffset = np.atleast_1d(mp.Fend.xiOffset)
+            mp.Fend.etaOffset = np.atleast_1d(mp.Fend.etaOffset)
             SCORE["etaOffset"] = mp.Fend.etaOffset[iZone]
 
         [maskTemp, _, _] = falco.mask.falco_gen_SW_mask(SCORE)
-- 
2.43.0


From 8b965c1c5b45d84b442590829d68836636059c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 14/97] fix: wavelengths shared by sub-bandpasses are weighted
 once each, however close they are

---
 falco/setup.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/falco/setup.py b/falco/setup.py
index 880597a..6b94236 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -547,19 +547,13 @@ def falco_set_spectral_properties(mp):
             counter = counter+1;
 
     # Get rid of redundant wavelengths in the complete list, and sum weights for repeated wavelengths
-    unused_1, inds_unique = np.unique(np.round(1e12*lambdas), return_index=True)  # Check equality at picometer level
+    _, inds_unique, inverse = np.unique(np.round(1e12*lambdas), return_index=True, return_inverse=True)  # Check equality at picometer level
     mp.full.indsLambdaUnique = inds_unique
-    duplicate_inds = np.setdiff1d(np.arange(len(lambdas), dtype=int), inds_unique)
-    # duplicate_values = lambda_weights_all[duplicate_inds] # duplicate weight values
 
     # Shorten the vectors to contain only unique values. Combine weights for repeated wavelengths.
     mp.full.lambdas = lambdas[inds_unique]
-    mp.full.lambda_weights_all = lambda_weights_all[inds_unique]
-    for idup in range(len(duplicate_inds)):
-        wvl = lambdas[duplicate_inds[idup]]
-        weight = lambda_weights_all[duplicate_inds[idup]]
-        ind = np.where(np.abs(mp.full.lambdas-wvl) <= 1e-11)
-        mp.full.lambda_weights_all[ind] = mp.full.lambda_weights_all[ind] + weight
+    mp.full.lambda_weights_all = np.zeros(len(inds_unique))
+    np.add.at(mp.full.lambda_weights_all, inverse.ravel(), lambda_weights_all)
     mp.full.NlamUnique = len(inds_unique)
     pass
 
-- 
2.43.0


From 46c21333104dcb55f180057a794998ea0331e467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 15/97] fix: Jacobian modal weights accept Zernikes in any
 order, piston included

---
 falco/setup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/setup.py b/falco/setup.py
index 6b94236..7212675 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -585,7 +585,7 @@ def falco_set_jacobian_modal_weights(mp):
 
     if not np.any(mp.jac.zerns == 1):
         raise ValueError('Piston must be included as a controlled Zernike.')
-    elif list(mp.jac.zerns) != list(set(mp.jac.zerns)):
+    elif len(set(mp.jac.zerns)) != mp.jac.Nzern:
         raise ValueError('mp.jac.zerns cannot have repeated values.')
     else:
         # Reset coefficient for piston term to 1
@@ -596,7 +596,7 @@ def falco_set_jacobian_modal_weights(mp):
     for izern in range(mp.jac.Nzern):
         whichZern = mp.jac.zerns[izern]
         if whichZern == 1:  # Include all wavelengths for piston Zernike mode
-            mp.jac.weightMat[:, 0] = np.ones(mp.Nsbp)
+            mp.jac.weightMat[:, izern] = np.ones(mp.Nsbp)
         else:  # Include just middle and end wavelengths for non-piston
             mp.jac.weightMat[0, izern] = 1
             mp.jac.weightMat[mp.si_ref, izern] = 1
-- 
2.43.0


From 0f435024a23899188f92a643c0cba19a9c1b5679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 16/97] fix: default field of view holds a clocked square dark
 hole

---
 falco/mask.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/falco/mask.py b/falco/mask.py
index 43ecee6..b6f5735 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -610,7 +610,9 @@ def falco_gen_SW_mask(inputs):
     xiOffset = inputs.get("xiOffset", 0.)
     etaOffset = inputs.get("etaOffset", 0.)
     if darkHoleShape in {'square', 'rect', 'rectangle'}:
-        maxExtent = np.max((1, 2*np.abs(np.cos(np.radians(clockAngDeg)))))
+        cosClock = np.abs(np.cos(np.radians(clockAngDeg)))
+        sinClock = np.abs(np.sin(np.radians(clockAngDeg)))
+        maxExtent = np.max((1, 2*cosClock, cosClock + sinClock))
     else:
         maxExtent = 1
     minFOVxi = inputs.get("xiFOV", maxExtent*FOV + np.abs(xiOffset))
-- 
2.43.0


From da6825834c2bec7db6434e185959b16a182fdb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 17/97] fix: cropping the Lyot stop never cuts into an array
 that has no padding to spare

---
 falco/setup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/setup.py b/falco/setup.py
index 7212675..2644dfd 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -763,7 +763,7 @@ def crop_lyot_stop(mp):
 
         lyotSum = np.sum(mp.P4.full.mask)
         lyotDiff = 0
-        counter = 2
+        counter = 0
         while np.abs(lyotDiff) <= 1e-7:
             mp.P4.full.Narr = len(mp.P4.full.mask)-counter
             # Subtract an extra 2 to negate the extra step that overshoots:
@@ -775,7 +775,7 @@ def crop_lyot_stop(mp):
     # Compact model
     lyotSum = np.sum(mp.P4.compact.mask)
     lyotDiff = 0
-    counter = 2
+    counter = 0
     while np.abs(lyotDiff) <= 1e-7:
         # Number of points across the cropped-down Lyot stop
         mp.P4.compact.Narr = len(mp.P4.compact.mask) - counter
-- 
2.43.0


From e8a999cae9de5a7d4b16dfbc449f6a138ddd6b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 18/97] fix: DM1 aperture stop can be switched on;
 compact-model padding uses the compact sampling

---
 falco/setup.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/falco/setup.py b/falco/setup.py
index 2644dfd..5a92599 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -1290,10 +1290,11 @@ def falco_configure_dm1_and_dm2(mp):
 
 def falco_gen_dm_stops(mp):
     """Generate circular aperture stops for the DMs."""
-    if not hasattr(mp.dm2, 'full'):
-        mp.dm2.full = falco.config.Object()
-    if not hasattr(mp.dm2, 'compact'):
-        mp.dm2.compact = falco.config.Object()
+    for dm in (mp.dm1, mp.dm2):
+        if not hasattr(dm, 'full'):
+            dm.full = falco.config.Object()
+        if not hasattr(dm, 'compact'):
+            dm.compact = falco.config.Object()
 
     if mp.flagDM1stop:
         mp.dm1.full.mask = falco.mask.falco_gen_DM_stop(mp.P2.full.dx, mp.dm1.Dstop, mp.centering)
@@ -1320,7 +1321,7 @@ def falco_set_dm_surface_padding(mp):
     else:
         NdmPad = 2*mp.P1.compact.Nbeam;
 
-    while (NdmPad < np.min(mp.sbp_centers)*np.abs(mp.d_dm1_dm2)/mp.P2.full.dx**2) or (NdmPad < np.min(mp.sbp_centers)*np.abs(mp.d_P2_dm1)/mp.P2.compact.dx**2): 
+    while (NdmPad < np.min(mp.sbp_centers)*np.abs(mp.d_dm1_dm2)/mp.P2.compact.dx**2) or (NdmPad < np.min(mp.sbp_centers)*np.abs(mp.d_P2_dm1)/mp.P2.compact.dx**2): 
         # Double the zero-padding until the angular spectrum sampling requirement is not violated
         NdmPad = 2*NdmPad;
     mp.compact.NdmPad = NdmPad;
-- 
2.43.0


From a257b49fc92a2b73c6298c3e211c194641c2015b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 19/97] fix: influence-function cube is centered like the DM
 surface when pupils are interpixel-centered

---
 falco/dm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/falco/dm.py b/falco/dm.py
index 3c42546..491ac3d 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -764,7 +764,8 @@ def gen_poke_cube(dm, mp, dx_dm, **kwargs):
 
         # Find the locations of the postage stamps arrays in the larger pupilPad array
         dm.xy_cent_act_inPix = dm.xy_cent_act*(dm.dm_spacing/dx_dm)  # Convert units to pupil-plane pixels
-        dm.xy_cent_act_inPix = dm.xy_cent_act_inPix + 0.5  # For the half-pixel offset if pixel centered.
+        if dm.centering == 'pixel':
+            dm.xy_cent_act_inPix = dm.xy_cent_act_inPix + 0.5  # For the half-pixel offset if pixel centered.
         dm.xy_cent_act_box = np.round(dm.xy_cent_act_inPix)  # Center locations of the postage stamps (in between pixels), in actuator widths
         dm.xy_cent_act_box_inM = dm.xy_cent_act_box*dx_dm  # now in meters
         dm.xy_box_lowerLeft = dm.xy_cent_act_box + (dm.NdmPad-Nbox)/2 - 0  # index of pixel in lower left of the postage stamp within the whole pupilPad array. +0 for Python, +1 for Matlab
-- 
2.43.0


From 93ec643cc466bfe39f7e07c62e5c56b46038a67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 20/97] fix: chromatic vortex charge is interpolated in
 wavelength and used (was a TypeError)

---
 falco/model/jacobians.py |  2 +-
 falco/model/models.py    | 12 ++++++------
 falco/prop.py            |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index cc91428..64acd9e 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -72,7 +72,7 @@ def precomp(mp):
                 if mp.F3.VortexCharge.size == 1:
                     charge = mp.F3.VortexCharge
                 else:
-                    np.interp(wvl, mp.F3.VortexCharge_lambdas, mp.F3.VortexCharge, 'linear', 'extrap')
+                    charge = np.interp(wvl, mp.F3.VortexCharge_lambdas, mp.F3.VortexCharge)
             elif isinstance(mp.F3.VortexCharge, int) or isinstance(mp.F3.VortexCharge, float):
                 # single value indicates fully achromatic mask
                 charge = mp.F3.VortexCharge
diff --git a/falco/model/models.py b/falco/model/models.py
index cc82748..d552cb8 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -378,8 +378,8 @@ def full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=False):
             if mp.F3.VortexCharge.size == 1:
                 charge = mp.F3.VortexCharge
             else:
-                np.interp(wvl, mp.F3.VortexCharge_lambdas, mp.F3.VortexCharge,
-                          'linear', 'extrap')
+                charge = np.interp(wvl, mp.F3.VortexCharge_lambdas,
+                                   mp.F3.VortexCharge)
 
         elif isinstance(mp.F3.VortexCharge, (int, float)):
             # single value indicates fully achromatic mask
@@ -558,8 +558,8 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
                 if mp.F3.VortexCharge.size == 1:
                     charge = mp.F3.VortexCharge
                 else:
-                    np.interp(wvl, mp.F3.VortexCharge_lambdas,
-                              mp.F3.VortexCharge, 'linear', 'extrap')
+                    charge = np.interp(wvl, mp.F3.VortexCharge_lambdas,
+                                       mp.F3.VortexCharge)
 
             elif isinstance(mp.F3.VortexCharge, (int, float)):
                 # single value indicates fully achromatic mask
@@ -937,8 +937,8 @@ def compact_general(mp, wvl, Ein, normFac, flagEval, flagScaleFPM=False,
                 if mp.F3.VortexCharge.size == 1:
                     charge = mp.F3.VortexCharge
                 else:
-                    np.interp(wvl, mp.F3.VortexCharge_lambdas,
-                              mp.F3.VortexCharge, 'linear', 'extrap')
+                    charge = np.interp(wvl, mp.F3.VortexCharge_lambdas,
+                                       mp.F3.VortexCharge)
 
             elif isinstance(mp.F3.VortexCharge, (int, float)):
                 # single value indicates fully achromatic mask
diff --git a/falco/prop.py b/falco/prop.py
index 23c43e9..2ed16c9 100644
--- a/falco/prop.py
+++ b/falco/prop.py
@@ -287,7 +287,7 @@ def mft_p2v2p(pupilPre, charge, beamRadius, inVal, outVal, reverseGradient=False
 
     """
     check.twoD_array(pupilPre, 'pupilPre', TypeError)
-    check.scalar_integer(charge, 'charge', TypeError)
+    check.real_scalar(charge, 'charge', TypeError)
     check.real_positive_scalar(beamRadius, 'beamRadius', TypeError)
     check.real_positive_scalar(inVal, 'inVal', TypeError)
     check.real_positive_scalar(outVal, 'outVal', TypeError)
-- 
2.43.0


From 39427c7251c3dde2143b1f8f8270a50bc9ac26ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 21/97] fix: scaled-FPM full model of the Lyot coronagraph
 scales both FPM axes and not the Lyot plane

---
 falco/model/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index d552cb8..0a6747d 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -309,8 +309,8 @@ def full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=False):
         #  MFT from FPM to Lyot Plane (i.e., F3 to P4)
         EP4subtrahend = falco.prop.mft_f2p(EF3, mp.fl, wvl,
                                            fpmScaleFac*mp.F3.full.dxi,
-                                           mp.F3.full.deta,
-                                           fpmScaleFac*mp.P4.full.dx,
+                                           fpmScaleFac*mp.F3.full.deta,
+                                           mp.P4.full.dx,
                                            mp.P4.full.Narr, mp.centering)
         # Babinet's principle at P4
         EP4noFPM = falco.prop.relay(EP3, NrelayFactor*mp.Nrelay3to4, mp.centering)
-- 
2.43.0


From 11378585114b23b881f92f1f3b550b9011f18c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 22/97] fix: full model and control Jacobian use the same
 Zernike phase term as the compact model

---
 falco/model/jacobians.py | 2 +-
 falco/model/models.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index 64acd9e..c6f35a7 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -114,7 +114,7 @@ def precomp(mp):
             zernMat = np.squeeze(falco.zern.gen_norm_zern_maps(
                 mp.P1.compact.Nbeam, mp.centering, indsZnoll))
             zernMat = pad_crop(zernMat, mp.P1.compact.Narr)
-            Ein *= zernMat*(2*np.pi/wvl)*mp.jac.Zcoef[
+            Ein *= zernMat*(2*np.pi*1j/wvl)*mp.jac.Zcoef[
                 mp.jac.zerns == modvar.zernIndex]
 
         """ Masks and DM surfaces """
diff --git a/falco/model/models.py b/falco/model/models.py
index 0a6747d..986745f 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -99,7 +99,7 @@ def full(mp, modvar, isNorm=True):
                                                            mp.centering,
                                                            indsZnoll))
         zernMat = pad_crop(zernMat, mp.P1.full.Narr)
-        Ein = Ein*zernMat*(2*np.pi/wvl)*mp.jac.Zcoef[mp.jac.zerns ==
+        Ein = Ein*zernMat*(2*np.pi*1j/wvl)*mp.jac.Zcoef[mp.jac.zerns ==
                                                      modvar.zernIndex]
 
     # %% Pre-compute the FPM first for HLC
-- 
2.43.0


From 3a16a297daa132f9b415d93093a5aa1055c6cbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 23/97] fix: AD-EFC gradient of the command penalty is
 proportional to the command

---
 falco/model/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 986745f..b8ac90c 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -632,7 +632,7 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
     gradient = np.concatenate((Vout1.reshape([mp.dm1.NactTotal])[mp.dm1.act_ele],
                                Vout2.reshape([mp.dm2.NactTotal])[mp.dm2.act_ele]),
                               axis=None)
-    gradient += 2 * utu_coef * gradient
+    gradient += 2 * utu_coef * command_vec
 
     return total_cost, gradient
 
-- 
2.43.0


From a5bb40b51feb57f17e0a54bb0995e012737c6319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 24/97] fix: reassembling the Jacobian from slices numbers the
 actuators

---
 falco/model/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index b8ac90c..2feb328 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -1286,11 +1286,11 @@ def reassemble_jac_from_slices(mp):
     # Reorder Jacobian by mode and DM from the list
     for imode in range(mp.jac.Nmode):
 
-        for index, iact in mp.dm1.act_ele:
+        for index, iact in enumerate(mp.dm1.act_ele):
             fn_dm1 = os.path.join(mp.path.jac, 'jac_mode%d_dm1_act%d.npy' % (imode, iact))
             jacStruct.G1[:, index, imode] = np.load(fn_dm1)
 
-        for index, iact in mp.dm2.act_ele:
+        for index, iact in enumerate(mp.dm2.act_ele):
             fn_dm2 = os.path.join(mp.path.jac, 'jac_mode%d_dm2_act%d.npy' % (imode, iact))
             jacStruct.G2[:, index, imode] = np.load(fn_dm2)
 
-- 
2.43.0


From 501e53115967b96e847f786bef5d0b4b50fd2594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 25/97] fix: parallel Jacobian fills the column of each used
 actuator, for the DMs in use

---
 falco/model/models.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 2feb328..b827f80 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -1156,14 +1156,18 @@ def jacobian(mp):
             #     )
             # results_tuple = tuple(result)
 
-            results_order_dm1 = [(imode, idm, iact) for iact in mp.dm1.act_ele for idm in [1, ] for imode in range(mp.jac.Nmode)]
-            results_order_dm2 = [(imode, idm, iact) for iact in mp.dm2.act_ele for idm in [2, ] for imode in range(mp.jac.Nmode)]
-            results_order = results_order_dm1 + results_order_dm2
+            results_order_dm1 = [(imode, idm, iact, index) for index, iact in enumerate(mp.dm1.act_ele) for idm in [1, ] for imode in range(mp.jac.Nmode)]
+            results_order_dm2 = [(imode, idm, iact, index) for index, iact in enumerate(mp.dm2.act_ele) for idm in [2, ] for imode in range(mp.jac.Nmode)]
+            results_order = []
+            if any(mp.dm_ind == 1):
+                results_order += results_order_dm1
+            if any(mp.dm_ind == 2):
+                results_order += results_order_dm2
 
             with PoolExecutor(max_workers=mp.Nthreads) as executor:
                 result = executor.map(
                     lambda p: _jac_middle_layer(*p),
-                    [(mp, imode, idm, iact) for imode, idm, iact in results_order]
+                    [(mp, imode, idm, iact) for imode, idm, iact, _ in results_order]
                 )
             results_tuple = tuple(result)
 
@@ -1171,15 +1175,15 @@ def jacobian(mp):
             for ii in range(len(results_order)):
                 imode = results_order[ii][0]
                 idm = results_order[ii][1]
-                iact = results_order[ii][2]
+                index = results_order[ii][3]
                 if idm == 1:
-                    jacStruct.G1[:, iact, imode] = results_tuple[ii]
+                    jacStruct.G1[:, index, imode] = results_tuple[ii]
                 if idm == 2:
-                    jacStruct.G2[:, iact, imode] = results_tuple[ii]
+                    jacStruct.G2[:, index, imode] = results_tuple[ii]
                 if idm == 8:
-                    jacStruct.G8[:, iact, imode] = results_tuple[ii]
+                    jacStruct.G8[:, index, imode] = results_tuple[ii]
                 if idm == 9:
-                    jacStruct.G9[:, iact, imode] = results_tuple[ii]
+                    jacStruct.G9[:, index, imode] = results_tuple[ii]
 
             print('done.')
 
-- 
2.43.0


From 401b78112219b0d73de95ee3236d4bb6c39ac5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 26/97] fix: interpixel half-pixel shift follows the rotation
 and tilt of the DM

---
 falco/dm.py | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index 491ac3d..40a05c6 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -20,6 +20,24 @@ if not proper.use_cubic_conv:
         from scipy.ndimage.interpolation import map_coordinates
 
 
+def _interpixel_shift(dm, dx):
+    """
+    Shift of the optical axis, in actuator widths, for interpixel centering.
+
+    The axis is half a pixel away from the array's center pixel in x and y. That
+    half pixel is measured in the (unrotated) pupil, so it has to be taken into
+    the coordinates of the rotated and tilted DM.
+    """
+    a, b, g = radians(dm.xtilt), radians(dm.ytilt), radians(-dm.zrot)
+    sa, ca, sb, cb, sg, cg = sin(a), cos(a), sin(b), cos(b), sin(g), cos(g)
+    if hasattr(dm, 'flagZYX') and dm.flagZYX:
+        dmToPupil = np.array([[cb*cg, -cb*sg], [ca*sg + sa*sb*cg, ca*cg - sa*sb*sg]])
+    else:
+        dmToPupil = np.array([[cb*cg, sa*sb*cg - ca*sg], [cb*sg, sa*sb*sg + ca*cg]])
+
+    return -np.linalg.solve(dmToPupil, np.array([dx/2., dx/2.]))/dm.dm_spacing
+
+
 def gen_surf_from_act(dm, dx, Nout):
     """
     Compute the surface shape of a deformable mirror using PROPER.
@@ -52,12 +70,11 @@ def gen_surf_from_act(dm, dx, Nout):
 
     # Adjust the centering of the output DM surface. The shift needs to be in
     # units of actuators, not meters, for prop_dm.m.
-    Darray = Nout*dx  # dm.NdmPad*dx
     Narray = Nout  # dm.NdmPad
     if dm.centering == 'interpixel':
-        cshift = -Darray/2./Narray/dm.dm_spacing
+        cshiftX, cshiftY = _interpixel_shift(dm, dx)
     elif dm.centering == 'pixel':
-        cshift = 0
+        cshiftX, cshiftY = 0, 0
 
     pupil_ratio = 1  # beam diameter fraction
     wl_dummy = 1e-6  # dummy value needed to initialize PROPER (meters)
@@ -105,13 +122,13 @@ def gen_surf_from_act(dm, dx, Nout):
             print("Initializing differentiable DM model.")
             if flagXYZ:
                 dm.differentiableModel = diff_dm.dm_init_falco_wrapper(
-                    dm, dx, Nout, heightMap, dm.xc-cshift, dm.yc-cshift, 
+                    dm, dx, Nout, heightMap, dm.xc-cshiftX, dm.yc-cshiftY, 
                     spacing=dm.dm_spacing, XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot,
                     XYZ=True, inf_sign=dm.inf_sign, inf_fn=dm.inf_fn,
                 )
             else:
                 dm.differentiableModel = diff_dm.dm_init_falco_wrapper(
-                    dm, dx, Nout, heightMap, dm.xc-cshift, dm.yc-cshift, 
+                    dm, dx, Nout, heightMap, dm.xc-cshiftX, dm.yc-cshiftY, 
                     spacing=dm.dm_spacing, XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot,
                     ZYX=True, inf_sign=dm.inf_sign, inf_fn=dm.inf_fn,
                 )
@@ -128,13 +145,13 @@ def gen_surf_from_act(dm, dx, Nout):
     else:
         if flagXYZ:
             DMsurf = falco.dm.propcustom_dm(
-                bm, heightMap, dm.xc-cshift, dm.yc-cshift, dm.dm_spacing,
+                bm, heightMap, dm.xc-cshiftX, dm.yc-cshiftY, dm.dm_spacing,
                 XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot, XYZ=True,
                 inf_sign=dm.inf_sign, inf_fn=dm.inf_fn,
             )
         else:
             DMsurf = falco.dm.propcustom_dm(
-                bm, heightMap, dm.xc-cshift, dm.yc-cshift, dm.dm_spacing,
+                bm, heightMap, dm.xc-cshiftX, dm.yc-cshiftY, dm.dm_spacing,
                 XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot, ZYX=True,
                 inf_sign=dm.inf_sign, inf_fn=dm.inf_fn,
             )
@@ -999,16 +1016,15 @@ def fit_surf_to_act(dm, surfaceToFit):
     elif nSurface > dm.Nact:
         # Adjust the centering of the output DM surface. The shift needs to be
         # in units of actuators, not meters
-        wArray = nSurface*dm.dx
-        cshift = -wArray/2./nSurface/dm.dm_spacing if(dm.centering == 'interpixel') else 0.
+        cshiftX, cshiftY = _interpixel_shift(dm, dm.dx) if(dm.centering == 'interpixel') else (0., 0.)
         if flagXYZ:
             gridDerotAtActRes = derotate_resize_surface(
-                surfaceToFit, dm.dx, dm.Nact, dm.xc-cshift, dm.yc-cshift,
+                surfaceToFit, dm.dx, dm.Nact, dm.xc-cshiftX, dm.yc-cshiftY,
                 dm.dm_spacing, XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot,
                 XYZ=True, inf_sign=dm.inf_sign, inf_fn=dm.inf_fn)
         else:
             gridDerotAtActRes = derotate_resize_surface(
-                surfaceToFit, dm.dx, dm.Nact, dm.xc-cshift, dm.yc-cshift,
+                surfaceToFit, dm.dx, dm.Nact, dm.xc-cshiftX, dm.yc-cshiftY,
                 dm.dm_spacing, XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot,
                 ZYX=True, inf_sign=dm.inf_sign, inf_fn=dm.inf_fn)
 
-- 
2.43.0


From 7303ccf1095f43bd4d765b9d36078011b59bb884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 27/97] fix: differentiable DM model honours the given DM
 center, without truncation, for odd actuator counts too

---
 falco/diff_dm.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/falco/diff_dm.py b/falco/diff_dm.py
index 4290949..8430433 100644
--- a/falco/diff_dm.py
+++ b/falco/diff_dm.py
@@ -158,8 +158,9 @@ def dm_init_falco_wrapper(dm,dx,Narray,dm_z0, dm_xc, dm_yc, spacing=0.,**kwargs)
     #intrpolate tine infuence function to the new coordinates
     #inf_scaled = ndimage.map_coordinates(inf, (Ynew[:], Xnew[:]))
 
-    shiftx = -1*int((dm.xc - dm.Nact//2 + 0.5) * inf_mag)
-    shifty = -1*int((dm.yc - dm.Nact//2 + 0.5) * inf_mag)
+    # The shift is applied with a Fourier method, so need not be an integer.
+    shiftx = -1*(dm_xc - (nx_dm - 1)/2) * inf_mag
+    shifty = -1*(dm_yc - (ny_dm - 1)/2) * inf_mag
 
     inf_pad = util.pad_crop(inf, int(nx_grid))
 
@@ -386,10 +387,8 @@ def prepare_actuator_lattice(shape, Nact, sep, dtype):
     cy, cx = [s//2 for s in shape]
     Nactx, Nacty = Nact
     skip_samples_x, skip_samples_y = sep
-    # python trick; floor division (//) rounds to negative inf, not zero
-    # because FFT grid alignment biases things to the left, if Nact is odd
-    # we want more on the negative side;
-    # this will make that so
+    # if Nact is odd, the middle actuator is at the center sample; if it is
+    # even, the center sample is halfway between the two middle actuators
     offx = 0
     offy = 0
     # TODO: does falco have an is_odd?  Did not see it in util
@@ -398,10 +397,10 @@ def prepare_actuator_lattice(shape, Nact, sep, dtype):
     if Nacty % 2 == 0:
         offy = skip_samples_y // 2
 
-    neg_extreme_x = cx + -Nactx//2 * skip_samples_x + offx
-    neg_extreme_y = cy + -Nacty//2 * skip_samples_y + offy
-    pos_extreme_x = cx + Nactx//2 * skip_samples_x + offx
-    pos_extreme_y = cy + Nacty//2 * skip_samples_y + offy
+    neg_extreme_x = cx - Nactx//2 * skip_samples_x + offx
+    neg_extreme_y = cy - Nacty//2 * skip_samples_y + offy
+    pos_extreme_x = neg_extreme_x + Nactx * skip_samples_x
+    pos_extreme_y = neg_extreme_y + Nacty * skip_samples_y
 
     ix = slice(neg_extreme_x, pos_extreme_x, skip_samples_x)
     iy = slice(neg_extreme_y, pos_extreme_y, skip_samples_y)
-- 
2.43.0


From 97b809a046aab3bd665a79ed16d94a4c75eedd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 28/97] fix: differentiable DM model is kept per sampling and
 array size

---
 falco/dm.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index 40a05c6..819c3b2 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -117,8 +117,15 @@ def gen_surf_from_act(dm, dx, Nout):
             raise ValueError('invalid value of dm.orientation')
 
     if dm.useDifferentiableModel:
-        if not hasattr(dm, "differentiableModel"):  # or dm.differentiableModel.Nout!=Narray:
-            # Initialize the model object if this is the first time
+        # The model is built for one sampling and array size, so the compact
+        # and full models may each need one of their own.
+        if not hasattr(dm, "differentiableModelDict"):
+            dm.differentiableModelDict = {}
+        if (dx, Nout) in dm.differentiableModelDict:
+            dm.differentiableModel = dm.differentiableModelDict[(dx, Nout)]
+            dm.differentiableModel.update(heightMap)
+        else:
+            # Initialize the model object if this is the first time for it
             print("Initializing differentiable DM model.")
             if flagXYZ:
                 dm.differentiableModel = diff_dm.dm_init_falco_wrapper(
@@ -132,9 +139,8 @@ def gen_surf_from_act(dm, dx, Nout):
                     spacing=dm.dm_spacing, XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot,
                     ZYX=True, inf_sign=dm.inf_sign, inf_fn=dm.inf_fn,
                 )
-        else:
-            dm.differentiableModel.update(heightMap)
-            
+            dm.differentiableModelDict[(dx, Nout)] = dm.differentiableModel
+
         DMsurf = dm.differentiableModel.render(Nout=Nout,wfe=False)  # returns surface rather than wfe
         if (DMsurf.shape[0] != Nout) or (DMsurf.shape[1] != Nout):
             raise RuntimeError("Differentiable DM Model output size does not match the requested array size!")
-- 
2.43.0


From ccad0f7bc7d49a8ab17fa93f396a765374ab2766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 29/97] fix: AD-EFC gradient follows the orientation of each DM

---
 falco/dm.py           | 30 ++++++++++++++++++++++++++++++
 falco/model/models.py |  4 ++++
 2 files changed, 34 insertions(+)

diff --git a/falco/dm.py b/falco/dm.py
index 819c3b2..22fcf78 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -167,6 +167,36 @@ def gen_surf_from_act(dm, dx, Nout):
     return DMsurf
 
 
+def undo_orientation(dm, surfMap):
+    """
+    Take an actuator map from the orientation of the DM surface to that of dm.V.
+
+    This is the inverse of the reorientation done in gen_surf_from_act().
+
+    Parameters
+    ----------
+    dm : falco.config.Object
+        Structure of DM parameters, possibly including dm.orientation
+    surfMap : array_like
+        2-D array with one value per actuator, oriented like the DM surface
+
+    Returns
+    -------
+    numpy ndarray
+        2-D array with one value per actuator, oriented like dm.V
+    """
+    if not hasattr(dm, 'orientation'):
+        return surfMap
+
+    orientation = dm.orientation.lower()
+    nRot90 = int(orientation.split('rot')[1]) // 90
+    outMap = np.rot90(surfMap, -nRot90)
+    if orientation.startswith('flipx'):
+        outMap = np.fliplr(outMap)
+
+    return outMap
+
+
 def discretize_surf(dm, HminStepMethod):
     """
     Discretize the DM commands used to make the DM surface map.
diff --git a/falco/model/models.py b/falco/model/models.py
index b827f80..4e04cf1 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -627,6 +627,10 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
     else:
         raise ValueError('mp.dm1.useDifferentiableModel and mp.dm2.useDifferentiableModel must be True for AD-EFC.')
 
+    # Go from the orientation of the surface back to that of the command
+    Vout1 = falco.dm.undo_orientation(mp.dm1, Vout1)
+    Vout2 = falco.dm.undo_orientation(mp.dm2, Vout2)
+
     Vout1 *= mp.dm1.VtoH * np.conj(~mp.dm1.dead_map)
     Vout2 *= mp.dm2.VtoH * np.conj(~mp.dm2.dead_map)
     gradient = np.concatenate((Vout1.reshape([mp.dm1.NactTotal])[mp.dm1.act_ele],
-- 
2.43.0


From cd4a6abb36e756f4b5f9f8b694299eb7d15ed730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 30/97] fix: AD-EFC gradient at DM1 includes the DM2 aperture
 stop

---
 falco/model/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/falco/model/models.py b/falco/model/models.py
index 4e04cf1..ba43e5d 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -606,6 +606,8 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
         surf_dm2_bar = -kk*np.imag(Edm2_grad * np.conj(Edm2pre))
 
         # To DM1
+        if mp.flagDM2stop:
+            Edm2_grad = Edm2_grad * pad_crop(mp.dm2.compact.mask, NdmPad)
         Edm1_grad = falco.prop.ptp(Edm2_grad, mp.P2.compact.dx*Edm2_grad.shape[0], wvl, -mp.d_dm1_dm2)
         surf_dm1_bar = -kk*np.imag(Edm1_grad * np.conj(Edm1post))
 
-- 
2.43.0


From 3ccdfa2f7aebd9eef6f401c0e441b6d8d473843a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:13 +0000
Subject: [PATCH 31/97] fix: compact model and Jacobian scale the FPM with
 wavelength in the same cases

---
 falco/model/jacobians.py |  3 ++-
 falco/model/models.py    | 13 +++++--------
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index c6f35a7..57eacee 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -251,7 +251,8 @@ def lyot(mp, imode, idm, iact):
     surfIntoPhase = 2.  # Phase change is twice the DM surface height.
 
     # Default is that FPM sampling does not vary with wavelength
-    if mp.layout.lower() == 'fpm_scale':
+    if mp.layout.lower() == 'fpm_scale' or \
+            (mp.coro.upper() == 'HLC' and mp.layout.lower() != 'fourier'):
         scaleFac = wvl/mp.lambda0
     else:
         scaleFac = 1
diff --git a/falco/model/models.py b/falco/model/models.py
index ba43e5d..20ebffd 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -762,14 +762,11 @@ def compact(mp, modvar, isNorm=True, isEvalMode=False, useFPM=True,
 
     elif mp.layout.lower() in ('roman_phasec_proper', 'wfirst_phaseb_proper',
                                'proper', 'fpm_scale'):
-        if mp.coro.upper() == 'HLC':
-            Eout = compact_general(mp, wvl, Ein, normFac, flagEval,
-                                   flagScaleFPM=True, useFPM=useFPM,
-                                   forRevGradModel=forRevGradModel)
-        else:
-            Eout = compact_general(mp, wvl, Ein, normFac, flagEval,
-                                   useFPM=useFPM,
-                                   forRevGradModel=forRevGradModel)
+        flagScaleFPM = (mp.coro.upper() == 'HLC' or
+                        mp.layout.lower() == 'fpm_scale')
+        Eout = compact_general(mp, wvl, Ein, normFac, flagEval,
+                               flagScaleFPM=flagScaleFPM, useFPM=useFPM,
+                               forRevGradModel=forRevGradModel)
     return Eout
 
 
-- 
2.43.0


From 745b408f64203e09ebb606c983fd10e870c1567b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 32/97] fix: AD-EFC gradient of the HLC uses the outer
 transmission and FPM scaling of each wavelength

---
 falco/model/models.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 20ebffd..8042e4f 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -459,12 +459,6 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
     isEvalMode = False
     useFPM = True
 
-    # Complex trans of points outside FPM
-    if mp.coro.upper() == 'HLC':
-        transOuterFPM = mp.F3.compact.mask[0, 0]
-    else:
-        transOuterFPM = 1.
-
     if mp.flagRotation:
         NrelayFactor = 1
     else:
@@ -530,6 +524,18 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
         # Compute the delta E-field from the latest commands (model new - model old).
         dEend = EFendB - EFendA
 
+        # Complex trans of points outside FPM, at this wavelength
+        if mp.coro.upper() == 'HLC':
+            transOuterFPM = mp.F3.compact.mask[0, 0]
+        else:
+            transOuterFPM = 1.
+
+        # Scaling of the FPM with wavelength, as in the compact model
+        fpmScaleFac = 1.
+        if mp.layout.lower() == 'fpm_scale' or \
+                (mp.coro.upper() == 'HLC' and mp.layout.lower() != 'fourier'):
+            fpmScaleFac = wvl/mp.lambda0
+
         # DH = EFend[mp.Fend.corr.maskBool]
         EdhNew = Eest2D + dEend
         DH = EdhNew[mp.Fend.corr.maskBool]
@@ -572,19 +578,19 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
         elif mp.coro.upper() == 'FLC' or mp.coro.upper() == 'SPLC':
 
             EP4_grad = falco.prop.relay(EP4_grad, NrelayFactor*mp.Nrelay3to4-1, mp.centering)
-            EF3_grad = falco.prop.mft_p2f(EP4_grad, -mp.fl, wvl, mp.P2.compact.dx, mp.F3.compact.dxi, mp.F3.compact.Nxi, mp.F3.compact.deta, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
+            EF3_grad = falco.prop.mft_p2f(EP4_grad, -mp.fl, wvl, mp.P2.compact.dx, fpmScaleFac*mp.F3.compact.dxi, mp.F3.compact.Nxi, fpmScaleFac*mp.F3.compact.deta, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
             EF3_grad = np.conj(mp.F3.compact.mask) * EF3_grad
-            EP3_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, mp.F3.compact.dxi, mp.F3.compact.deta, mp.P4.compact.dx, NdmPad, mp.centering) # Subtrahend term for Babinet's principle 
+            EP3_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, fpmScaleFac*mp.F3.compact.dxi, fpmScaleFac*mp.F3.compact.deta, mp.P4.compact.dx, NdmPad, mp.centering) # Subtrahend term for Babinet's principle 
 
         elif mp.coro.upper() in ('LC', 'APLC', 'HLC'):
             # MFT Method
-            EP4noFPM_grad = EP4_grad
+            EP4noFPM_grad = np.conj(transOuterFPM) * EP4_grad
             EP3noFPM_grad = pad_crop(falco.prop.relay(EP4noFPM_grad, NrelayFactor*mp.Nrelay3to4, mp.centering), NdmPad)
             EP4subtr_grad = -EP4_grad
             EP4subtr_grad = falco.prop.relay(EP4subtr_grad, NrelayFactor*mp.Nrelay3to4 - 1, mp.centering)
-            auxEP4subtr_grad = falco.prop.mft_p2f(EP4subtr_grad, -mp.fl, wvl, mp.P2.compact.dx, mp.F3.compact.dxi, mp.F3.compact.Nxi, mp.F3.compact.deta, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
+            auxEP4subtr_grad = falco.prop.mft_p2f(EP4subtr_grad, -mp.fl, wvl, mp.P2.compact.dx, fpmScaleFac*mp.F3.compact.dxi, mp.F3.compact.Nxi, fpmScaleFac*mp.F3.compact.deta, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
             EF3_grad = np.conj(transOuterFPM - mp.F3.compact.mask) * auxEP4subtr_grad
-            EP3subtr_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, mp.F3.compact.dxi, mp.F3.compact.deta, mp.P4.compact.dx, NdmPad, mp.centering)  # Subtrahend term for Babinet's principle 
+            EP3subtr_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, fpmScaleFac*mp.F3.compact.dxi, fpmScaleFac*mp.F3.compact.deta, mp.P4.compact.dx, NdmPad, mp.centering)  # Subtrahend term for Babinet's principle 
             EP3_grad = EP3noFPM_grad + EP3subtr_grad
 
         else:
-- 
2.43.0


From bba14ed0e939e01a30b3622df2e957b32a4069d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 33/97] fix: AD-EFC gradient uses the sampling of the pupil it
 is in

---
 falco/model/models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 8042e4f..4cc5788 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -578,9 +578,9 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
         elif mp.coro.upper() == 'FLC' or mp.coro.upper() == 'SPLC':
 
             EP4_grad = falco.prop.relay(EP4_grad, NrelayFactor*mp.Nrelay3to4-1, mp.centering)
-            EF3_grad = falco.prop.mft_p2f(EP4_grad, -mp.fl, wvl, mp.P2.compact.dx, fpmScaleFac*mp.F3.compact.dxi, mp.F3.compact.Nxi, fpmScaleFac*mp.F3.compact.deta, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
+            EF3_grad = falco.prop.mft_p2f(EP4_grad, -mp.fl, wvl, mp.P4.compact.dx, fpmScaleFac*mp.F3.compact.dxi, mp.F3.compact.Nxi, fpmScaleFac*mp.F3.compact.deta, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
             EF3_grad = np.conj(mp.F3.compact.mask) * EF3_grad
-            EP3_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, fpmScaleFac*mp.F3.compact.dxi, fpmScaleFac*mp.F3.compact.deta, mp.P4.compact.dx, NdmPad, mp.centering) # Subtrahend term for Babinet's principle 
+            EP3_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, fpmScaleFac*mp.F3.compact.dxi, fpmScaleFac*mp.F3.compact.deta, mp.P2.compact.dx, NdmPad, mp.centering) # Subtrahend term for Babinet's principle 
 
         elif mp.coro.upper() in ('LC', 'APLC', 'HLC'):
             # MFT Method
@@ -588,9 +588,9 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
             EP3noFPM_grad = pad_crop(falco.prop.relay(EP4noFPM_grad, NrelayFactor*mp.Nrelay3to4, mp.centering), NdmPad)
             EP4subtr_grad = -EP4_grad
             EP4subtr_grad = falco.prop.relay(EP4subtr_grad, NrelayFactor*mp.Nrelay3to4 - 1, mp.centering)
-            auxEP4subtr_grad = falco.prop.mft_p2f(EP4subtr_grad, -mp.fl, wvl, mp.P2.compact.dx, fpmScaleFac*mp.F3.compact.dxi, mp.F3.compact.Nxi, fpmScaleFac*mp.F3.compact.deta, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
+            auxEP4subtr_grad = falco.prop.mft_p2f(EP4subtr_grad, -mp.fl, wvl, mp.P4.compact.dx, fpmScaleFac*mp.F3.compact.dxi, mp.F3.compact.Nxi, fpmScaleFac*mp.F3.compact.deta, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
             EF3_grad = np.conj(transOuterFPM - mp.F3.compact.mask) * auxEP4subtr_grad
-            EP3subtr_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, fpmScaleFac*mp.F3.compact.dxi, fpmScaleFac*mp.F3.compact.deta, mp.P4.compact.dx, NdmPad, mp.centering)  # Subtrahend term for Babinet's principle 
+            EP3subtr_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, fpmScaleFac*mp.F3.compact.dxi, fpmScaleFac*mp.F3.compact.deta, mp.P2.compact.dx, NdmPad, mp.centering)  # Subtrahend term for Babinet's principle 
             EP3_grad = EP3noFPM_grad + EP3subtr_grad
 
         else:
-- 
2.43.0


From f13bd4d552597f5a61058096372092736f0c8505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 34/97] fix: full HLC model picks the mask of the wavelength
 for any number of sub-bands

---
 falco/model/models.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 4cc5788..d9ea176 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -103,15 +103,11 @@ def full(mp, modvar, isNorm=True):
                                                      modvar.zernIndex]
 
     # %% Pre-compute the FPM first for HLC
-    if mp.Nsbp > 1 and mp.Nwpsbp > 1:
-        # Weird indexing is because interior wavelengths at
-        # edges of sub-bands are the same, and the fpmCube
-        # contains only the minimal set of masks.
-        ilam = (modvar.sbpIndex-2)*mp.Nwpsbp + modvar.wpsbpIndex + \
-            (mp.Nsbp-modvar.sbpIndex+1)
-    elif mp.Nsbp == 1 and mp.Nwpsbp > 1:
-        ilam = modvar.wpsbpIndex
-    elif mp.Nwpsbp == 1:
+    # Neighboring sub-bands share the wavelength at their common edge, and the
+    # fpmCube contains only the minimal set of masks.
+    if mp.Nwpsbp > 1:
+        ilam = modvar.sbpIndex*(mp.Nwpsbp-1) + modvar.wpsbpIndex
+    else:
         ilam = modvar.sbpIndex
 
     if mp.coro.upper() == 'HLC':
-- 
2.43.0


From 7e8f30bc0e318fe0a785ee4b6e3234294c68ca50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:38 +0000
Subject: [PATCH 35/97] fix: Jacobian of the normalized intensity includes the
 HLC's outer transmission

---
 falco/model/jacobians.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index 57eacee..d7406bd 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -1111,7 +1111,11 @@ def no_fpm(mp, imode, idm, iact):
         # Edm1WFE = np.ones((NdmPad, NdmPad))
         Edm2WFE = np.ones((NdmPad, NdmPad))
 
-    transOuterFPM = 1
+    # Complex transmission of points outside the FPM
+    if mp.coro.upper() == 'HLC':
+        transOuterFPM = mp.compact.fpmCube[0, 0, modvar.sbpIndex]
+    else:
+        transOuterFPM = 1
 
     """Propagation"""
     # # Get the unocculted peak E-field and coronagraphic E-field
-- 
2.43.0


From fff9f34b9801c984940ab959e549319e3a28806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 36/97] fix: off-axis image weights each sub-bandpass like
 every other broadband image

---
 falco/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/imaging.py b/falco/imaging.py
index 316435c..0582183 100644
--- a/falco/imaging.py
+++ b/falco/imaging.py
@@ -624,7 +624,7 @@ def get_sim_offaxis_image_compact(mp, x_offset, y_offset, isEvalMode=False):
             modvar.zernIndex = 1
 
             E2D = falco.model.compact(mp, modvar, isEvalMode=isEvalMode)
-            Iout += (np.abs(E2D)**2) * mp.jac.weightMat[si, 0]
+            Iout += (np.abs(E2D)**2) * mp.sbp_weights[si]
 
     return Iout
 
-- 
2.43.0


From ca013741666d96327c8320be5e116e20617957a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 37/97] fix: differentiable DM model keeps its scale when its
 array size is rounded

---
 falco/diff_dm.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/falco/diff_dm.py b/falco/diff_dm.py
index 8430433..248fe04 100644
--- a/falco/diff_dm.py
+++ b/falco/diff_dm.py
@@ -416,7 +416,7 @@ def prepare_actuator_lattice(shape, Nact, sep, dtype):
     }
 
 
-def fourier_resample(f, zoom):
+def fourier_resample(f, zoom, shape=None):
     if zoom == 1:
         return f
 
@@ -426,15 +426,19 @@ def fourier_resample(f, zoom):
         zoom = tuple(float(zoom) for zoom in zoom)
 
     m, n = f.shape
-    M = int(np.round(m*zoom[0]))
-    N = int(np.round(n*zoom[1]))
+    if shape is None:
+        M = int(np.round(m*zoom[0]))
+        N = int(np.round(n*zoom[1]))
+    else:
+        M, N = shape
 
     # commented out below, an alternative that does not use the fft2 norm keyword argument
     # doing it this way is mildly preferrable;
     F = fftutils.fftshift(fftutils.fft2(fftutils.ifftshift(f), norm='ortho'))
     # F = fftutils.fftshift(fftutils.fft2(fftutils.ifftshift(f)))
 
-    Mx, My = setup_mft_matricies_scalars((M, N), F.shape, 1, 1)
+    # The number of samples is rounded, but their spacing has to be 1/zoom.
+    Mx, My = setup_mft_matricies_scalars((M, N), F.shape, n*zoom[1]/N, m*zoom[0]/M)
     fprime = imft2_core(F, Mx, My).real
     fprime *= np.sqrt((zoom[0]*zoom[1]))
     # fprime *= np.sqrt((zoom[0]*zoom[1]))/(np.sqrt(f.size))
@@ -722,8 +726,8 @@ class DM:
         """Gradient backpropagation for self.render."""
         protograd = util.pad_crop(protograd, self.Nintermediate)
         if self.upsample != 1:
-            upsample = self.ifn.shape[0]/protograd.shape[0]
-            protograd = fourier_resample(protograd, upsample)
+            upsample = 1/self.upsample
+            protograd = fourier_resample(protograd, upsample, shape=self.ifn.shape)
             protograd /= upsample**2
 
         if wfe:
-- 
2.43.0


From da39eb3c6c7f5512d21f9db50afa6f6c8a57670f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 38/97] fix: railed actuators are held at the voltage limit,
 which includes the bias

---
 falco/dm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index 22fcf78..0847e2c 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -970,13 +970,13 @@ def enforce_constraints(dm):
     # Min voltage limit
     Vtotal = dm.V + dm.biasMap
     new_inds = np.nonzero(Vtotal.flatten() < dm.Vmin)[0]  # linear indices of new actuators breaking their bounds
-    new_vals = dm.Vmin*np.ones(new_inds.size)
+    new_vals = dm.Vmin - np.ravel(dm.biasMap)[new_inds]  # The limit is on the sum of the command and the bias
     dm.pinned = np.hstack([dm.pinned, new_inds])  # Augment the vector of pinned actuator linear indices
     dm.Vpinned = np.hstack([dm.Vpinned, new_vals])  # Augment the vector of pinned actuator values
 
     # Max voltage limit
     new_inds = np.nonzero(Vtotal.flatten() > dm.Vmax)[0]  # linear indices of new actuators breaking their bounds
-    new_vals = dm.Vmax*np.ones(new_inds.size)
+    new_vals = dm.Vmax - np.ravel(dm.biasMap)[new_inds]
     dm.pinned = np.hstack([dm.pinned, new_inds])     # Augment the vector of pinned actuator linear indices
     dm.Vpinned = np.hstack([dm.Vpinned, new_vals])  # Augment the vector of pinned actuator values
 
-- 
2.43.0


From 8f1f25d2926360fbb373339c2573174081d36a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:01 +0000
Subject: [PATCH 39/97] fix: neighbor rule returns the pairs it changed instead
 of failing, and keeps its input

---
 falco/dm.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index 0847e2c..20565f6 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -877,8 +877,8 @@ def apply_neighbor_rule(Vin, Vlim, Nact):
     check.real_scalar(Vlim, 'Vlim', TypeError)
     check.positive_scalar_integer(Nact, 'Nact', TypeError)
 
-    Vout = Vin  # Initialize output voltage map
-    indPair = np.zeros((0, 2))  # Initialize the paired indices list. [nPairs x 2]
+    Vout = Vin.copy()  # Initialize output voltage map
+    indPair = np.zeros((0, 2), dtype=int)  # Initialize the paired indices list. [nPairs x 2]
 
     kx1 = np.array([[0, 1], [1, 1], [1, 0]])              # R1-C1
     kx2 = np.array([[0, 1], [1, 1], [1, 0], [1, -1]])         # R1, C2 - C47
@@ -923,9 +923,8 @@ def apply_neighbor_rule(Vin, Vlim, Nact):
 
                     if (np.abs(a1) > Vlim):  # If neighbor rule is violated
 
-                        indLinCtr = (ii-1)*Nact + jj  # linear index of center actuator
-                        indLinNbr = (kc[iNbr]-1)*Nact + kr[iNbr]  # linear index of neigboring actuator
-                        indPair = np.array([indPair, np.array([indLinCtr, indLinNbr]).reshape(1, 2)])
+                        indLinCtr = jj*Nact + ii  # linear index of center actuator
+                        indLinNbr = kr[iNbr]*Nact + kc[iNbr]  # linear index of neigboring actuator
                         indPair = np.vstack([indPair, np.array([indLinCtr, indLinNbr]).reshape(1, 2)])
 
                         fx = (np.abs(a1) - Vlim) / 2.
-- 
2.43.0


From 2a7bb41574d68b17b4306b6d100f658aff02d12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:24 +0000
Subject: [PATCH 40/97] fix: pinned actuators hold their own values even when
 their command passes a limit

---
 falco/dm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index 20565f6..bba2c22 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -966,15 +966,19 @@ def enforce_constraints(dm):
     # Apply dead actuator map
     dm.V = dm.V * ~dm.dead_map
 
+    # Actuators that are pinned already hold their own values, whatever their command
+    isFree = np.ones(dm.V.size, dtype=bool)
+    isFree[dm.pinned.astype(int)] = False
+
     # Min voltage limit
     Vtotal = dm.V + dm.biasMap
-    new_inds = np.nonzero(Vtotal.flatten() < dm.Vmin)[0]  # linear indices of new actuators breaking their bounds
+    new_inds = np.nonzero(isFree & (Vtotal.flatten() < dm.Vmin))[0]  # linear indices of new actuators breaking their bounds
     new_vals = dm.Vmin - np.ravel(dm.biasMap)[new_inds]  # The limit is on the sum of the command and the bias
     dm.pinned = np.hstack([dm.pinned, new_inds])  # Augment the vector of pinned actuator linear indices
     dm.Vpinned = np.hstack([dm.Vpinned, new_vals])  # Augment the vector of pinned actuator values
 
     # Max voltage limit
-    new_inds = np.nonzero(Vtotal.flatten() > dm.Vmax)[0]  # linear indices of new actuators breaking their bounds
+    new_inds = np.nonzero(isFree & (Vtotal.flatten() > dm.Vmax))[0]  # linear indices of new actuators breaking their bounds
     new_vals = dm.Vmax - np.ravel(dm.biasMap)[new_inds]
     dm.pinned = np.hstack([dm.pinned, new_inds])     # Augment the vector of pinned actuator linear indices
     dm.Vpinned = np.hstack([dm.Vpinned, new_vals])  # Augment the vector of pinned actuator values
-- 
2.43.0


From 5e8a7b71b9485e3b4e2edeb8b05c7715db4bc135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:24 +0000
Subject: [PATCH 41/97] fix: surface fitting follows the DM orientation, and
 the iterative fit takes negative influence functions

---
 falco/dm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index bba2c22..b1b9a68 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -1074,11 +1074,13 @@ def fit_surf_to_act(dm, surfaceToFit):
         heightAtActRes = fit_surf_with_dm_lsq_wrapper(dm, gridDerotAtActRes)  # Creates the prefilter if it doesn't exist
         # heightAtActRes = fit_surf_with_dm_lsq(gridDerotAtActRes, dm.act_prefilter)  # Assumes prefilter exists already
     elif dm.surfFitMethod.lower() == 'proper':
-        [heightAtActRes, surfaceOut] = proper.prop_fit_dm(gridDerotAtActRes, infFuncAtActRes)
+        # The iterative fit only converges for an influence function of positive sign
+        signFac = np.sign(infFuncAtActRes[N2//2, N2//2])
+        [heightAtActRes, surfaceOut] = proper.prop_fit_dm(signFac*gridDerotAtActRes, signFac*infFuncAtActRes)
     else:
         raise ValueError('Invalid or missing value of dm.surfFitMethod')
 
-    Vout = heightAtActRes/dm.VtoH
+    Vout = undo_orientation(dm, heightAtActRes)/dm.VtoH
     Vout[np.isinf(Vout)] = 0
 
     return Vout
-- 
2.43.0


From 4c21247e55f166959b23be3f8e6dc896f41ee6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 42/97] fix: images simulated in parallel include every star
 and the noise, and do not share the polarization and FPM between threads

---
 falco/imaging.py | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/falco/imaging.py b/falco/imaging.py
index 0582183..f36698d 100644
--- a/falco/imaging.py
+++ b/falco/imaging.py
@@ -1,4 +1,6 @@
 """Functions for generating images in FALCO."""
+import copy
+
 import numpy as np
 import multiprocessing
 from concurrent.futures import ThreadPoolExecutor as PoolExecutor
@@ -230,8 +232,24 @@ def calc_psf_norm_factor(mp):
         plt.pause(1e-2)
 
 
+def _copy_for_thread(mp):
+    """Copy mp so that a thread can run the full model beside other threads.
+
+    The polarization state and the FPM at the wavelength are passed to the full
+    model through mp, so each thread needs its own place to put them.
+    """
+    mp = copy.copy(mp)
+    mp.full = copy.copy(mp.full)
+    mp.F3 = copy.copy(mp.F3)
+    if hasattr(mp.F3, 'full'):
+        mp.F3.full = copy.copy(mp.F3.full)
+
+    return mp
+
+
 def _model_full_norm_wrapper(mp, ilist, inds_list):
     """Use only with calc_psf_norm_factor for parallel processing."""
+    mp = _copy_for_thread(mp)
     si = inds_list[ilist][0]
     wi = inds_list[ilist][1]
 
@@ -267,7 +285,8 @@ def get_summed_image(mp):
     if type(mp) is not falco.config.ModelParameters:
         raise TypeError('Input "mp" must be of type ModelParameters')
 
-    if not (mp.flagParallel and mp.flagSim):
+    # Detector noise is added to the image of each sub-bandpass
+    if not (mp.flagParallel and mp.flagSim) or mp.flagImageNoise:
         summedImage = 0
         for si in range(mp.Nsbp):
             summedImage += mp.sbp_weights[si] * get_sbp_image(mp, si)
@@ -275,9 +294,10 @@ def get_summed_image(mp):
     else:  # Compute simulated images in parallel
 
         # Initializations
-        vals_list = [(ilam, pol) for ilam in range(mp.full.NlamUnique)
-                     for pol in mp.full.pol_conds]
-        Nvals = mp.full.NlamUnique*len(mp.full.pol_conds)
+        vals_list = [(ilam, pol, iStar) for ilam in range(mp.full.NlamUnique)
+                     for pol in mp.full.pol_conds
+                     for iStar in range(mp.star.count)]
+        Nvals = len(vals_list)
 
 #         result = map(
 #             lambda p: _get_single_sim_full_image(*p),
@@ -345,8 +365,10 @@ def _get_single_sim_full_image_one_arg(mp):
 
 def _get_single_sim_full_image(mp, ilist, vals_list):
     """Use only with get_summed_image."""
+    mp = _copy_for_thread(mp)
     ilam = vals_list[ilist][0]
     pol = vals_list[ilist][1]
+    iStar = vals_list[ilist][2]
 
     modvar = falco.config.ModelVariables()  # Initialize the new structure
     modvar.sbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam], 0]
@@ -354,7 +376,7 @@ def _get_single_sim_full_image(mp, ilist, vals_list):
                                               1]
     mp.full.polaxis = pol  # mp.full.pol_conds[ipol]
     modvar.whichSource = 'star'
-    modvar.starIndex = 0
+    modvar.starIndex = iStar
     Estar = falco.model.full(mp, modvar)
 
     return np.abs(Estar)**2  # Apply spectral weighting outside this function
@@ -473,6 +495,7 @@ def _get_subband_image_component(mp, si, ilist, inds_list):
         raise TypeError('Input "mp" must be of type ModelParameters')
     check.nonnegative_scalar_integer(si, 'si', TypeError)
 
+    mp = _copy_for_thread(mp)
     wi = inds_list[ilist][0]
     ipol = inds_list[ilist][1]
     iStar = inds_list[ilist][2]
-- 
2.43.0


From ea6672cf669045fa46c6473f29d10765ddca283e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 43/97] fix: expected image adds up the unaberrated modes of
 every star

---
 falco/imaging.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/falco/imaging.py b/falco/imaging.py
index f36698d..dbe7e65 100644
--- a/falco/imaging.py
+++ b/falco/imaging.py
@@ -552,16 +552,20 @@ def get_expected_summed_image(mp, cvar, dDM):
 
     # Initialize variables
     Ibandavg = 0
-    EnewTempVecArray = np.zeros((mp.Fend.corr.Npix, mp.Nsbp), dtype=complex)
-    EoldTempVecArray = np.zeros((mp.Fend.corr.Npix, mp.Nsbp), dtype=complex)
+    EnewTempVecArray = np.zeros((mp.Fend.corr.Npix, mp.jac.Nmode), dtype=complex)
+    EoldTempVecArray = np.zeros((mp.Fend.corr.Npix, mp.jac.Nmode), dtype=complex)
+
+    # Only the unaberrated (i.e., piston) modes of each star are in the image
+    pistonModes = np.flatnonzero(np.asarray(mp.jac.zern_inds) == 1)
 
     # Generate the model-based E-field with the new DM setting
     modvar = falco.config.ModelVariables()  # Initialize the new structure
     modvar.whichSource = 'star'
-    for si in range(mp.Nsbp):
-        modvar.sbpIndex = si
+    for iMode in pistonModes:
+        modvar.sbpIndex = mp.jac.sbp_inds[iMode]
+        modvar.starIndex = mp.jac.star_inds[iMode]
         Etemp = falco.model.compact(mp, modvar)
-        EnewTempVecArray[:, si] = Etemp[mp.Fend.corr.maskBool]
+        EnewTempVecArray[:, iMode] = Etemp[mp.Fend.corr.maskBool]
 
     # Revert to the previous DM commands
     if any(mp.dm_ind == 1):
@@ -576,18 +580,20 @@ def get_expected_summed_image(mp, cvar, dDM):
     # Generate the model-based E-field with the previous DM setting
     modvar.whichSource = 'star'
     modvar.wpsbpIndex = 0  # Dummy, placeholder value
-    for si in range(mp.Nsbp):
-        modvar.sbpIndex = si
+    for iMode in pistonModes:
+        modvar.sbpIndex = mp.jac.sbp_inds[iMode]
+        modvar.starIndex = mp.jac.star_inds[iMode]
         Etemp = falco.model.compact(mp, modvar)
-        EoldTempVecArray[:, si] = Etemp[mp.Fend.corr.maskBool]
+        EoldTempVecArray[:, iMode] = Etemp[mp.Fend.corr.maskBool]
 
     # Compute the expected new 2-D intensity image
-    for si in range(mp.Nsbp):
-        EexpectedVec = cvar.Eest[:, si] + \
-            (EnewTempVecArray[:, si] - EoldTempVecArray[:, si])
+    for iMode in pistonModes:
+        EexpectedVec = cvar.Eest[:, iMode] + \
+            (EnewTempVecArray[:, iMode] - EoldTempVecArray[:, iMode])
         Eexpected2D = np.zeros((mp.Fend.Neta, mp.Fend.Nxi), dtype=complex)
         Eexpected2D[mp.Fend.corr.maskBool] = EexpectedVec
 
+        si = mp.jac.sbp_inds[iMode]
         Ibandavg += mp.sbp_weights[si]*np.abs(Eexpected2D)**2
 
     # Reset voltage commands in mp
-- 
2.43.0


From 63ef8018299e447af97ff847065aeee823aad983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 44/97] fix: perfect estimator sums the images of all stars,
 handles any image shape in parallel, and keeps its threads apart

---
 falco/est.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/falco/est.py b/falco/est.py
index 6e38f8e..ac1da06 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -129,7 +129,7 @@ def perfect(mp, ev):
         # pool.join()
 
         # Re-order for easier indexing
-        EmatArray = np.zeros((mp.Fend.Nxi, mp.Fend.Neta, mp.jac.Nmode, mp.Nwpsbp), dtype=complex)
+        EmatArray = np.zeros((mp.Fend.Neta, mp.Fend.Nxi, mp.jac.Nmode, mp.Nwpsbp), dtype=complex)
         EvecArray = np.zeros((mp.Fend.corr.Npix, mp.jac.Nmode, mp.Nwpsbp), dtype=complex)
         for iv in range(Nvals):
             iMode = inds_list[iv][0]  # Index of the Jacobian mode
@@ -190,7 +190,7 @@ def perfect(mp, ev):
                 EmatSubband += mp.full.lambda_weights[wi] * E2D
 
             if isPiston:
-                ev.imageArray[:, :, 0, modvar.sbpIndex] = np.abs(EmatSubband)**2
+                ev.imageArray[:, :, 0, modvar.sbpIndex] += np.abs(EmatSubband)**2
 
             Eest[:, iMode] = EmatSubband[mp.Fend.corr.maskBool]
 
@@ -204,6 +204,7 @@ def perfect(mp, ev):
 # single changing input argument).
 def _est_perfect_Efield_with_Zernikes_in_parallel(mp, ilist, inds_list):
 
+    mp = falco.imaging._copy_for_thread(mp)
     iMode = inds_list[ilist][0]  # Index of the Jacobian mode
     wi = inds_list[ilist][1]   # Index of the wavelength in the sub-bandpass
 
-- 
2.43.0


From c7b1a6798dc5850e2ce50be8374a0a94b39a9899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:42 +0000
Subject: [PATCH 45/97] fix: spatial weights are applied to the Jacobian once,
 not again at every use of it

---
 falco/ctrl.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index 5c83f1a..8a8472a 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -43,6 +43,7 @@ def wrapper(mp, cvar, jacStruct):
 
     else:
 
+        jacStruct = copy.copy(jacStruct)  # Keep the weights in this function
         apply_spatial_weighting_to_Jacobian(mp, jacStruct)
 
         # with falco.util.TicToc('Using the Jacobian to make other matrices'):
@@ -1052,6 +1053,12 @@ def apply_spatial_weighting_to_Jacobian(mp, jacStruct):
     None.
 
     """
+    # The caller may keep using the unweighted arrays, so write to new ones
+    if np.any(mp.dm_ind == 1):
+        jacStruct.G1 = jacStruct.G1.copy()
+    if np.any(mp.dm_ind == 2):
+        jacStruct.G2 = jacStruct.G2.copy()
+
     for iStar in range(mp.compact.star.count):
 
         if np.any(mp.dm_ind == 1):
-- 
2.43.0


From 49ec401b8828489850bb0007ca970234a942f509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:42 +0000
Subject: [PATCH 46/97] fix: parallel model-based grid search keeps the image
 of its best command; DM8 commands come from DM8

---
 falco/ctrl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index 8a8472a..cb6b04f 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -353,6 +353,7 @@ def _grid_search_efc(mp, cvar):
         # Convert from a list to arrays:
         for ni in range(Nvals):
             InormVec[ni] = results_ctrl[ni][0]
+            ImCube[ni, :, :] = results_ctrl[ni][1].Itotal
             if any(mp.dm_ind == 1):
                 dDM1V_store[:, :, ni] = results_ctrl[ni][1].dDM1V
             if any(mp.dm_ind == 2):
@@ -1114,7 +1115,7 @@ def init(mp, cvar):
     # Make the vector of total DM commands from before
     u1 = mp.dm1.V.reshape(mp.dm1.NactTotal)[mp.dm1.act_ele] if any(mp.dm_ind == 1) else np.array([])
     u2 = mp.dm2.V.reshape(mp.dm2.NactTotal)[mp.dm2.act_ele] if any(mp.dm_ind == 2) else np.array([])
-    u8 = mp.dm9.V.reshape(mp.dm8.NactTotal)[mp.dm8.act_ele] if any(mp.dm_ind == 8) else np.array([])
+    u8 = mp.dm8.V.reshape(mp.dm8.NactTotal)[mp.dm8.act_ele] if any(mp.dm_ind == 8) else np.array([])
     u9 = mp.dm9.V.reshape(mp.dm9.NactTotal)[mp.dm9.act_ele] if any(mp.dm_ind == 9) else np.array([])
     cvar.uVec = np.concatenate((u1, u2, u8, u9))
     cvar.NeleAll = cvar.uVec.size
-- 
2.43.0


From 1de3b33818aa4fb4808f020898032daff22c1376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:39 +0000
Subject: [PATCH 47/97] fix: culling keeps the right actuators when the
 Jacobian holds only some of them

All actuators are put back before the Jacobian is computed, not after.
---
 falco/ctrl.py | 116 ++++++++++++++++++++++++++++++++++----------------
 falco/wfsc.py |   1 +
 2 files changed, 81 insertions(+), 36 deletions(-)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index cb6b04f..40e65a3 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -128,6 +128,73 @@ def wrapper(mp, cvar, jacStruct):
     return None
 
 
+def include_all_actuators(mp, cvar):
+    """
+    Put back all the actuators if weak ones will be culled in this iteration.
+
+    Has to be called before the Jacobian is computed, because its columns are
+    the actuators used.
+
+    Parameters
+    ----------
+    mp : ModelParameters
+        Structure containing optical model parameters
+    cvar : ModelParameters
+        Structure containing controller variables
+
+    Returns
+    -------
+    None
+        Changes are made by reference to mp and cvar.
+    """
+    if cvar.Itr == 0:  # Cull in first iteration
+        cvar.flagCullAct = True
+    else:  # Cull when actuators used change
+        if hasattr(mp, 'dm_ind_sched'):
+            schedPre = np.sort(mp.dm_ind_sched[cvar.Itr-1])
+            schedNow = np.sort(mp.dm_ind_sched[cvar.Itr])
+            cvar.flagCullAct = not np.array_equal(schedPre, schedNow)
+        else:
+            cvar.flagCullAct = False
+
+    if cvar.flagCullAct:
+        # Re-include all actuators in the basis set.
+        if np.any(mp.dm_ind == 1):
+            mp.dm1.act_ele = np.arange(mp.dm1.NactTotal)
+        if np.any(mp.dm_ind == 2):
+            mp.dm2.act_ele = np.arange(mp.dm2.NactTotal)
+        if np.any(mp.dm_ind == 8):
+            mp.dm8.act_ele = np.arange(mp.dm8.NactTotal)
+        if np.any(mp.dm_ind == 9):
+            mp.dm9.act_ele = np.arange(mp.dm9.NactTotal)
+
+        _count_used_actuators(mp)
+
+    return None
+
+
+def _count_used_actuators(mp):
+    """Update the number of elements used per DM."""
+    if np.any(mp.dm_ind == 1):
+        mp.dm1.Nele = len(mp.dm1.act_ele)
+    else:
+        mp.dm1.Nele = 0
+    if np.any(mp.dm_ind == 2):
+        mp.dm2.Nele = len(mp.dm2.act_ele)
+    else:
+        mp.dm2.Nele = 0
+    if np.any(mp.dm_ind == 8):
+        mp.dm8.Nele = len(mp.dm8.act_ele)
+    else:
+        mp.dm8.Nele = 0
+    if np.any(mp.dm_ind == 9):
+        mp.dm9.Nele = len(mp.dm9.act_ele)
+    else:
+        mp.dm9.Nele = 0
+
+    return None
+
+
 def cull_weak_actuators(mp, cvar, jacStruct):
     """
     Remove weak actuators from the controlled set.
@@ -163,35 +230,8 @@ def cull_weak_actuators(mp, cvar, jacStruct):
         mp.flagCullActHist = np.zeros((mp.Nitr, ))
     mp.flagCullActHist[cvar.Itr] = cvar.flagCullAct
 
-    # Before performing new cull, include all actuators again
     if cvar.flagCullAct:
-        # Re-include all actuators in the basis set.
-        if np.any(mp.dm_ind == 1):
-            mp.dm1.act_ele = list(range(mp.dm1.NactTotal))
-        if np.any(mp.dm_ind == 2):
-            mp.dm2.act_ele = list(range(mp.dm2.NactTotal))
-        if np.any(mp.dm_ind == 8):
-            mp.dm8.act_ele = list(range(mp.dm8.NactTotal))
-        if np.any(mp.dm_ind == 9):
-            mp.dm9.act_ele = list(range(mp.dm9.NactTotal))
-
-        # Update the number of elements used per DM
-        if np.any(mp.dm_ind == 1):
-            mp.dm1.Nele = len(mp.dm1.act_ele)
-        else:
-            mp.dm1.Nele = 0
-        if np.any(mp.dm_ind == 2):
-            mp.dm2.Nele = len(mp.dm2.act_ele)
-        else:
-            mp.dm2.Nele = 0
-        if np.any(mp.dm_ind == 8):
-            mp.dm8.Nele = len(mp.dm8.act_ele)
-        else:
-            mp.dm8.Nele = 0
-        if np.any(mp.dm_ind == 9):
-            mp.dm9.Nele = len(mp.dm9.act_ele)
-        else:
-            mp.dm9.Nele = 0
+        _count_used_actuators(mp)
 
     # Reduce the number of actuators used based on their relative strength
     # in the Jacobian
@@ -201,22 +241,26 @@ def cull_weak_actuators(mp, cvar, jacStruct):
         if any(mp.dm_ind == 1):
             G1intNorm = np.sum(np.mean(np.abs(jacStruct.G1)**2, axis=2), axis=0)
             G1intNorm = G1intNorm/np.max(G1intNorm)
-            mp.dm1.act_ele = np.nonzero(G1intNorm >= 10**(mp.logGmin))[0]
+            act_ele1 = np.asarray(mp.dm1.act_ele)  # columns of the Jacobian
+            mp.dm1.act_ele = act_ele1[G1intNorm >= 10**(mp.logGmin)]
             del G1intNorm
         if any(mp.dm_ind == 2):
             G2intNorm = np.sum(np.mean(np.abs(jacStruct.G2)**2, axis=2), axis=0)
             G2intNorm = G2intNorm/np.max(G2intNorm)
-            mp.dm2.act_ele = np.nonzero(G2intNorm >= 10**(mp.logGmin))[0]
+            act_ele2 = np.asarray(mp.dm2.act_ele)  # columns of the Jacobian
+            mp.dm2.act_ele = act_ele2[G2intNorm >= 10**(mp.logGmin)]
             del G2intNorm
         if any(mp.dm_ind == 8):
             G8intNorm = np.sum(np.mean(np.abs(jacStruct.G8)**2, axis=2), axis=0)
             G8intNorm = G8intNorm/np.max(G8intNorm)
-            mp.dm8.act_ele = np.nonzero(G8intNorm >= 10**(mp.logGmin))[0]
+            act_ele8 = np.asarray(mp.dm8.act_ele)  # columns of the Jacobian
+            mp.dm8.act_ele = act_ele8[G8intNorm >= 10**(mp.logGmin)]
             del G8intNorm
         if any(mp.dm_ind == 9):
             G9intNorm = np.sum(np.mean(np.abs(jacStruct.G9)**2, axis=2), axis=0)
             G9intNorm = G9intNorm/np.max(G9intNorm)
-            mp.dm9.act_ele = np.nonzero(G9intNorm >= 10**(mp.logGmin))[0]
+            act_ele9 = np.asarray(mp.dm9.act_ele)  # columns of the Jacobian
+            mp.dm9.act_ele = act_ele9[G9intNorm >= 10**(mp.logGmin)]
             del G9intNorm
 
         # Add back in all actuators that are tied (to make the tied actuator
@@ -278,13 +322,13 @@ def cull_weak_actuators(mp, cvar, jacStruct):
 
         # Crop out unused actuators from the control Jacobian
         if any(mp.dm_ind == 1):
-            jacStruct.G1 = jacStruct.G1[:, mp.dm1.act_ele, :]
+            jacStruct.G1 = jacStruct.G1[:, np.isin(act_ele1, mp.dm1.act_ele), :]
         if any(mp.dm_ind == 2):
-            jacStruct.G2 = jacStruct.G2[:, mp.dm2.act_ele, :]
+            jacStruct.G2 = jacStruct.G2[:, np.isin(act_ele2, mp.dm2.act_ele), :]
         if any(mp.dm_ind == 8):
-            jacStruct.G8 = jacStruct.G8[:, mp.dm8.act_ele, :]
+            jacStruct.G8 = jacStruct.G8[:, np.isin(act_ele8, mp.dm8.act_ele), :]
         if any(mp.dm_ind == 9):
-            jacStruct.G9 = jacStruct.G9[:, mp.dm9.act_ele, :]
+            jacStruct.G9 = jacStruct.G9[:, np.isin(act_ele9, mp.dm9.act_ele), :]
 
     return None
 
diff --git a/falco/wfsc.py b/falco/wfsc.py
index cae6fc2..110c4fe 100644
--- a/falco/wfsc.py
+++ b/falco/wfsc.py
@@ -78,6 +78,7 @@ def loop(mp, out):
             # Compute the control Jacobians for each DM
             cvar.flagRelin = np.any(mp.relinItrVec == Itr) or Itr == 0
             if cvar.flagRelin:
+                falco.ctrl.include_all_actuators(mp, cvar)
                 jacStruct = falco.model.jacobian(mp)
 
             falco.ctrl.cull_weak_actuators(mp, cvar, jacStruct)
-- 
2.43.0


From 39890b0f62c1dadca59ff38d4aa9a5682608e527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:01 +0000
Subject: [PATCH 48/97] fix: stored intensities leave the estimate alone and
 handle Zernike modes

---
 falco/wfsc.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/falco/wfsc.py b/falco/wfsc.py
index 110c4fe..5c5864c 100644
--- a/falco/wfsc.py
+++ b/falco/wfsc.py
@@ -341,16 +341,19 @@ def store_intensities(mp, out, ev, Itr):
     """Store newest intensities in the out object."""
     # ## Calculate the average measured, coherent, and incoherent intensities
 
+    # Only the unaberrated (i.e., piston) modes are images of the stars
+    pistonModes = np.flatnonzero(np.asarray(mp.jac.zern_inds) == 1)
+
     # Apply subband weights and then sum over subbands
     Iest = np.abs(ev.Eest)**2
-    Iinco = ev.IincoEst
-    for iMode in range(mp.jac.Nmode):
+    Iinco = ev.IincoEst.copy()
+    for iMode in pistonModes:
         iSubband = mp.jac.sbp_inds[iMode]
         Iest[:, iMode] = mp.sbp_weights[iSubband] * Iest[:, iMode]
         Iinco[:, iMode] = mp.sbp_weights[iSubband] * Iinco[:, iMode]
 
-    IestAllBands = np.sum(Iest, axis=1)
-    IincoAllBands = np.sum(Iinco, axis=1)
+    IestAllBands = np.sum(Iest[:, pistonModes], axis=1)
+    IincoAllBands = np.sum(Iinco[:, pistonModes], axis=1)
 
     # Put intensities back into 2-D arrays to use correct indexing of scoring region.
     # Modulated
@@ -379,16 +382,17 @@ def store_intensities(mp, out, ev, Itr):
         del imageMeas
 
     # estimated
-    for iMode in range(mp.jac.Nmode):
+    for iMode in pistonModes:
 
+        iImage = mp.jac.star_inds[iMode]*mp.Nsbp + mp.jac.sbp_inds[iMode]
         imageModVec = np.abs(ev.Eest[:, iMode])**2
         imageUnmodVec = ev.IincoEst[:, iMode]
 
-        out.normIntModCorr[Itr, iMode] = np.mean(imageModVec)
-        out.normIntModScore[Itr, iMode] = np.mean(imageModVec[mp.Fend.scoreInCorr])
+        out.normIntModCorr[Itr, iImage] = np.mean(imageModVec)
+        out.normIntModScore[Itr, iImage] = np.mean(imageModVec[mp.Fend.scoreInCorr])
 
-        out.normIntUnmodCorr[Itr, iMode] = np.mean(imageUnmodVec)
-        out.normIntUnmodScore[Itr, iMode] = np.mean(imageUnmodVec[mp.Fend.scoreInCorr])
+        out.normIntUnmodCorr[Itr, iImage] = np.mean(imageUnmodVec)
+        out.normIntUnmodScore[Itr, iImage] = np.mean(imageUnmodVec[mp.Fend.scoreInCorr])
 
     pass
 
-- 
2.43.0


From efef21e9ff5df2488c8a14810de0ad8b41211667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:29 +0000
Subject: [PATCH 49/97] fix: saving the workspace at the end of the WFSC loop
 no longer fails

---
 falco/wfsc.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/falco/wfsc.py b/falco/wfsc.py
index 5c5864c..7d94c75 100644
--- a/falco/wfsc.py
+++ b/falco/wfsc.py
@@ -200,8 +200,6 @@ def loop(mp, out):
     # Save out the data from the workspace
     if mp.flagSaveWS:
         del cvar
-        del G
-        del h
         del jacStruct
 
         # Don't bother saving the large 2-D, floating point maps.
@@ -226,12 +224,13 @@ def loop(mp, out):
 
         mp.dm1.compact.inf_datacube = 0
         mp.dm2.compact.inf_datacube = 0
-        mp.dm8.compact.inf_datacube = 0
-        mp.dm9.compact.inf_datacube = 0
+        for dm in (mp.dm8, mp.dm9):  # Only used for HLCs
+            if hasattr(dm, 'compact'):
+                dm.compact.inf_datacube = 0
         mp.dm8.inf_datacube = 0
         mp.dm9.inf_datacube = 0
 
-        fnAll = mp.path.ws + mp.runLabel + '_all.pkl'
+        fnAll = os.path.join(mp.path.ws, (mp.runLabel + '_all.pkl'))
         print('Saving entire workspace to file ' + fnAll + '...', end='')
         with open(fnAll, 'wb') as f:
             pickle.dump(mp, f)
-- 
2.43.0


From 07850f7e2fc3d96da0a1cd3afcaa202d7527240a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:08 +0000
Subject: [PATCH 50/97] fix: expected and estimated changes of the field are
 compared for the same mode

---
 falco/plot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/falco/plot.py b/falco/plot.py
index c9b52b2..dc4e558 100644
--- a/falco/plot.py
+++ b/falco/plot.py
@@ -187,7 +187,11 @@ def delta_efield(mp, out, Eest, EestPrev, Esim, EsimPrev, Itr):
 
     """
     for iSubband in range(mp.Nsbp):
-        dEmeas = np.squeeze(Eest[:, iSubband] - EestPrev[:, iSubband])
+        # The simulated fields are of the first star without aberrations
+        iMode = np.flatnonzero((np.asarray(mp.jac.sbp_inds) == iSubband)
+                               & (np.asarray(mp.jac.zern_inds) == 1)
+                               & (np.asarray(mp.jac.star_inds) == 0))[0]
+        dEmeas = np.squeeze(Eest[:, iMode] - EestPrev[:, iMode])
         dEmeas2D = np.zeros((mp.Fend.Neta, mp.Fend.Nxi), dtype=complex)
         dEmeas2D[mp.Fend.corr.maskBool] = dEmeas  # 2-D for plotting
         indsNonzero = np.nonzero(dEmeas != 0)[0]
-- 
2.43.0


From 6d89027eb0f1cdf193ea9ed9b2fd2f79347f82f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:29 +0000
Subject: [PATCH 51/97] fix: reassembling the Jacobian reads slices only of the
 DMs in use

---
 falco/model/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index d9ea176..217931f 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -1295,11 +1295,11 @@ def reassemble_jac_from_slices(mp):
     # Reorder Jacobian by mode and DM from the list
     for imode in range(mp.jac.Nmode):
 
-        for index, iact in enumerate(mp.dm1.act_ele):
+        for index, iact in enumerate(mp.dm1.act_ele if any(mp.dm_ind == 1) else []):
             fn_dm1 = os.path.join(mp.path.jac, 'jac_mode%d_dm1_act%d.npy' % (imode, iact))
             jacStruct.G1[:, index, imode] = np.load(fn_dm1)
 
-        for index, iact in enumerate(mp.dm2.act_ele):
+        for index, iact in enumerate(mp.dm2.act_ele if any(mp.dm_ind == 2) else []):
             fn_dm2 = os.path.join(mp.path.jac, 'jac_mode%d_dm2_act%d.npy' % (imode, iact))
             jacStruct.G2[:, index, imode] = np.load(fn_dm2)
 
-- 
2.43.0


From 62ed70f7b0253d441b9f93a2aa94fa0e5bdbb723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:43 +0000
Subject: [PATCH 52/97] fix: pairwise probing keeps the command of a DM that is
 not used

---
 falco/est.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/falco/est.py b/falco/est.py
index ac1da06..601c61d 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -293,15 +293,8 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
         raise ValueError('mp.est.probe.whichDM must equal 1 or 2.')
 
     # Store the initial DM commands
-    if np.any(mp.dm_ind == 1):
-        DM1Vnom = mp.dm1.V.copy()
-    else:
-        DM1Vnom = np.zeros((mp.dm1.Nact, mp.dm1.Nact))
-
-    if np.any(mp.dm_ind == 2):
-        DM2Vnom = mp.dm2.V.copy()
-    else:
-        DM2Vnom = np.zeros((mp.dm2.Nact, mp.dm2.Nact))
+    DM1Vnom = mp.dm1.V.copy()
+    DM2Vnom = mp.dm2.V.copy()
 
     # Initialize output arrays
     Npairs = mp.est.probe.Npairs  # Number of image PAIRS
-- 
2.43.0


From 6d8d9c00414d64bac7a2431852dacc74f22559c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:43 +0000
Subject: [PATCH 53/97] fix: scheduled probe intensities are taken by index

---
 falco/est.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/est.py b/falco/est.py
index 601c61d..678c90f 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -417,7 +417,7 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
                                      ev.InormProbeMax])
                 print('Chosen probe intensity: %.2e' % InormProbe)
             else:
-                InormProbe = mp.est.probeSchedule.InormProbeVec(Itr)
+                InormProbe = mp.est.probeSchedule.InormProbeVec[Itr]
                 print('Scheduled probe intensity: %.2e' % InormProbe)
 
             # Perform the probing
-- 
2.43.0


From 6812c87d3df7c686558d9736cc75c458e746ac0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:43 +0000
Subject: [PATCH 54/97] fix: probe commands are those of the probing DM

---
 falco/est.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/falco/est.py b/falco/est.py
index 678c90f..2609202 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -511,7 +511,10 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
             ev.iStar = iStar
             dDMVplus = np.zeros_like(DM1Vplus)
             for ii in range(Npairs):
-                dDMVplus[:, :, ii] = DM1Vplus[:, :, ii] - DM1Vnom
+                if whichDM == 1:
+                    dDMVplus[:, :, ii] = DM1Vplus[:, :, ii] - DM1Vnom
+                elif whichDM == 2:
+                    dDMVplus[:, :, ii] = DM2Vplus[:, :, ii] - DM2Vnom
             falco.plot.pairwise_probes(mp, ev, dDMVplus, ampSq2Dcube, iSubband)
 
             # ################# Perform the estimation #######################
-- 
2.43.0


From 61dce20c0ecc2d988743b657f36ced46e950057d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:03 +0000
Subject: [PATCH 55/97] fix: estimation with the Jacobian multiplies it by the
 probe commands

---
 falco/est.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/falco/est.py b/falco/est.py
index 2609202..d949f86 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -524,18 +524,21 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
             # is adaptive based on empirical data.
             if mp.est.flagUseJac:
 
+                # Only the unaberrated mode is probed
+                jacMode = np.flatnonzero(
+                    (np.asarray(mp.jac.sbp_inds) == iSubband) &
+                    (np.asarray(mp.jac.star_inds) == iStar) &
+                    (np.asarray(mp.jac.zern_inds) == 1))[0]
                 dEplus = np.zeros_like(Iplus, dtype=complex)
                 for iProbe in range(Npairs):
                     if whichDM == 1:
                         dV = DM1Vplus[:, :, iProbe] - DM1Vnom
-                        dEplus[:, iProbe] = \
-                            np.squeeze(jacStruct.G1[:, :, iSubband]) * \
-                            dV[mp.dm1.act_ele]
+                        dEplus[:, iProbe] = jacStruct.G1[:, :, jacMode] @ \
+                            dV.ravel()[mp.dm1.act_ele] / mp.dm1.weight
                     elif whichDM == 2:
                         dV = DM2Vplus[:, :, iProbe] - DM2Vnom
-                        dEplus[:, iProbe] = \
-                            np.squeeze(jacStruct.G2[:, :, iSubband]) * \
-                            dV[mp.dm2.act_ele]
+                        dEplus[:, iProbe] = jacStruct.G2[:, :, jacMode] @ \
+                            dV.ravel()[mp.dm2.act_ele] / mp.dm2.weight
 
             # Get the probe phase from the model
             # and the probe amplitude from the measurements
@@ -595,8 +598,8 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
                 for ipix in range(mp.Fend.corr.Npix):
 
                     if mp.est.flagUseJac:
-                        dE = dEplus[ipix, :].T
-                        H = np.array([np.real(dE), np.imag(dE)])
+                        dE = dEplus[ipix, :]
+                        H = np.array([np.real(dE), np.imag(dE)]).T
                         Epix = np.linalg.pinv(H) @ zAll[:, ipix]  # Batch processing
                     else:
                         allProbeInds = np.arange(Npairs, dtype=int)
-- 
2.43.0


From d5419edeb39df5ac174332f6048c7d8c2d2f4646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:43 +0000
Subject: [PATCH 56/97] fix: scheduled probe properties are checked instead of
 failing

---
 falco/est.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/falco/est.py b/falco/est.py
index d949f86..0f6ac6a 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -250,28 +250,28 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
     # If scheduled, change some aspects of the probe.
     # None values mean they are not scheduled.
     if mp.est.probeSchedule.xOffsetVec is not None:
-        check.oneD_array(mp.est.probeSchedule.xOffsetVec)
+        check.oneD_array(mp.est.probeSchedule.xOffsetVec, 'mp.est.probeSchedule.xOffsetVec', TypeError)
         if len(mp.est.probeSchedule.xOffsetVec) < mp.Nitr:
             raise ValueError('mp.est.probeSchedule.xOffsetVec must have '
                              'enough values for all WFSC iterations.')
         mp.est.probe.xOffset = mp.est.probeSchedule.xOffsetVec[Itr]
 
     if mp.est.probeSchedule.yOffsetVec is not None:
-        check.oneD_array(mp.est.probeSchedule.yOffsetVec)
+        check.oneD_array(mp.est.probeSchedule.yOffsetVec, 'mp.est.probeSchedule.yOffsetVec', TypeError)
         if len(mp.est.probeSchedule.yOffsetVec) < mp.Nitr:
             raise ValueError('mp.est.probeSchedule.yOffsetVec must have '
                              'enough values for all WFSC iterations.')
         mp.est.probe.yOffset = mp.est.probeSchedule.yOffsetVec[Itr]
 
     if mp.est.probeSchedule.rotationVec is not None:
-        check.oneD_array(mp.est.probeSchedule.rotationVec)
+        check.oneD_array(mp.est.probeSchedule.rotationVec, 'mp.est.probeSchedule.rotationVec', TypeError)
         if len(mp.est.probeSchedule.rotationVec) < mp.Nitr:
             raise ValueError('mp.est.probeSchedule.rotationVec must have '
                              'enough values for all WFSC iterations.')
         mp.est.probe.rotation = mp.est.probeSchedule.rotationVec[Itr]
 
     if mp.est.probeSchedule.InormProbeVec is not None:
-        check.oneD_array(mp.est.probeSchedule.InormProbeVec)
+        check.oneD_array(mp.est.probeSchedule.InormProbeVec, 'mp.est.probeSchedule.InormProbeVec', TypeError)
         if len(mp.est.probeSchedule.InormProbeVec) < mp.Nitr:
             raise ValueError('mp.est.probeSchedule.InormProbeVec must have '
                              'enough values for all WFSC iterations.')
-- 
2.43.0


From 64dca6a569552f65fdb4fe9bff6056ec20f2f8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:24 +0000
Subject: [PATCH 57/97] fix: gradient-based control applies the scale factor of
 the command

---
 falco/ctrl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index 40e65a3..3f8e574 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -1037,7 +1037,7 @@ def _ad_efc(ni, vals_list, mp, cvar):
                  'iprint': mp.ctrl.ad.iprint,
                  },
         )
-    duVec = u_sol.x
+    duVec = dmfac * u_sol.x
     print(u_sol.success)
     print(u_sol.nit)
     '''
-- 
2.43.0


From 4a4999994b4563e9672c8fd617abcd6f40bfedcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:24 +0000
Subject: [PATCH 58/97] fix: singular mode spectrum uses the Jacobians of the
 DMs in use

---
 falco/plot.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/falco/plot.py b/falco/plot.py
index dc4e558..340bb1b 100644
--- a/falco/plot.py
+++ b/falco/plot.py
@@ -244,22 +244,16 @@ def delta_efield(mp, out, Eest, EestPrev, Esim, EsimPrev, Itr):
 
 def singular_mode_spectrum_of_Efield(mp, out, jacStruct, Eest, Itr):
 
-    iMode = 0
-    Gcomplex = np.concatenate((jacStruct.G1[:, :, iMode],
-                               jacStruct.G2[:, :, iMode],
-                               jacStruct.G8[:, :, iMode],
-                               jacStruct.G9[:, :, iMode]), axis=1)
-    Gall = np.zeros((mp.jac.Nmode*Gcomplex.shape[0], Gcomplex.shape[1]),
-                    dtype=complex)
+    # Only the DMs in use have a Jacobian
+    listOfG = [getattr(jacStruct, 'G%d' % iDM) for iDM in (1, 2, 8, 9)
+               if np.any(mp.dm_ind == iDM)]
+    Gcube = np.concatenate(listOfG, axis=1)
+    N = Gcube.shape[0]
+    Gall = np.zeros((mp.jac.Nmode*N, Gcube.shape[1]), dtype=complex)
     Eall = np.zeros((mp.jac.Nmode*Eest.shape[0], 1), dtype=complex)
 
     for iMode in range(mp.jac.Nmode):
-        N = Gcomplex.shape[0]
-        Gcomplex = np.concatenate((jacStruct.G1[:, :, iMode],
-                                   jacStruct.G2[:, :, iMode],
-                                   jacStruct.G8[:, :, iMode],
-                                   jacStruct.G9[:, :, iMode]), axis=1)
-        Gall[iMode*N:(iMode+1)*N, :] = Gcomplex
+        Gall[iMode*N:(iMode+1)*N, :] = Gcube[:, :, iMode]
         Eall[iMode*N:(iMode+1)*N, 0] = Eest[:, iMode]
 
     Eri = np.concatenate((np.real(Eall), np.imag(Eall)), axis=0)
-- 
2.43.0


From a601e699711678fb7c6cf40d3642b66980e6067d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:28 +0000
Subject: [PATCH 59/97] fix: Zernike coefficients of high order are exact

---
 falco/proper/prop_noll_zernikes.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/falco/proper/prop_noll_zernikes.py b/falco/proper/prop_noll_zernikes.py
index e6c5370..11f96c1 100644
--- a/falco/proper/prop_noll_zernikes.py
+++ b/falco/proper/prop_noll_zernikes.py
@@ -13,11 +13,7 @@
 
 import numpy as np
 
-import scipy
-if scipy.__version__ > '1':
-    from scipy.special import factorial
-else:
-    from scipy.misc import factorial
+from math import factorial
 
 import falco.proper as proper
 
@@ -86,7 +82,7 @@ def prop_noll_zernikes(maxz, **kwargs):
     max_r_power = 0
     max_theta_multiplier = 0
 
-    z_list = np.zeros(maxz+1, dtype = "S250")    # z_list[0] is always blank
+    z_list = np.zeros(maxz+1, dtype = "S1000")    # z_list[0] is always blank
     iz = 1
     n = 0
 
@@ -110,9 +106,9 @@ def prop_noll_zernikes(maxz, **kwargs):
                     continue
 
                 for s in range(0, (n-m)//2 + 1):
-                    term_top = int((-1)**s) * int(factorial(n-s))
-                    term_bottom = int(factorial(s)) * int(factorial((n+m)/2-s)) * int(factorial((n-m)/2 - s))
-                    term_val = int(term_top / term_bottom)
+                    term_top = int((-1)**s) * factorial(n-s)
+                    term_bottom = factorial(s) * factorial((n+m)//2-s) * factorial((n-m)//2 - s)
+                    term_val = term_top // term_bottom
                     term = str(np.abs(term_val)).strip() + ".0"
                     term_r = int(n - 2*s)
                     rpower = str(term_r).strip()
-- 
2.43.0


From e40b437de1b1d21cbff7974995f2b71e8e6e8054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:28 +0000
Subject: [PATCH 60/97] fix: every obscured Zernike is added to the map, not
 only the last

---
 falco/zern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/zern.py b/falco/zern.py
index 4a17202..584217e 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -619,7 +619,7 @@ def propcustom_zernikes(a, zernike_num, zernike_val, eps=0., **kwargs):
                 elif zernike_num[iz] == 22:
                     ab = (np.sqrt(7)*(1 + eps**6 - 12*r2 + 30*r4 - 20*r**6 + eps**4*(9 - 12*r2) + eps**2*(9 - 36*r2 + 30*r4)))/ (-1 + eps**2)**3
 
-            dmap[j, :] += zernike_val[iz] * ab
+                dmap[j, :] += zernike_val[iz] * ab
 
     if not ("NO_APPLY" in kwargs and kwargs["NO_APPLY"]):
         if ("AMPLITUDE" in kwargs and kwargs["AMPLITUDE"]):
-- 
2.43.0


From d8975890b6998fe5b0f927c026b325d158f6f853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:02 +0000
Subject: [PATCH 61/97] fix: hexagonal piston alone gives a map

---
 falco/proper/prop_hex_zernikes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_hex_zernikes.py b/falco/proper/prop_hex_zernikes.py
index fd17da4..a0bdf0c 100644
--- a/falco/proper/prop_hex_zernikes.py
+++ b/falco/proper/prop_hex_zernikes.py
@@ -103,7 +103,7 @@ def prop_hex_zernikes(zindex, zcoeff, n, dx, hexrad, xhex = 0.0, yhex = 0.0, **k
 
     r = np.sqrt(x**2 + y**2) / hexrad
     t = np.arctan2(y, x) - angle * np.pi/180.
-    zer = 0.
+    zer = np.zeros_like(r)
 
     for i in range(len(zcoeff)):
         iz = zindex[i]
-- 
2.43.0


From 100d2a7a2b5fd5575215d1b69c8808e57fdfdb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:02 +0000
Subject: [PATCH 62/97] fix: segmented aperture without omitted segments no
 longer fails

---
 falco/proper/prop_hex_wavefront.py | 340 ++++++++++++++---------------
 1 file changed, 170 insertions(+), 170 deletions(-)

diff --git a/falco/proper/prop_hex_wavefront.py b/falco/proper/prop_hex_wavefront.py
index 945cf0a..699257b 100644
--- a/falco/proper/prop_hex_wavefront.py
+++ b/falco/proper/prop_hex_wavefront.py
@@ -1,170 +1,170 @@
-#   Copyright 2016, 2017 California Institute of Technology
-#   Users must agree to abide by the restrictions listed in the
-#   file "LegalStuff.txt" in the PROPER library directory.
-#
-#   PROPER developed at Jet Propulsion Laboratory/California Inst. Technology
-#   Original IDL version by John Krist
-#   Python translation by Navtej Saini, with Luis Marchen and Nikta Amiri
-#
-
-
-import falco.proper as proper
-import numpy as np
-
-
-def prop_hex_wavefront(wf, nrings, hexrad, hexsep, zernike_val = 0, **kwargs):
-    """Compute transmission and wavefront phase errors for a segmented hexagonal
-    aperture and apply them to the current wavefront.
-
-    The hexagons making up the aperture have antialiased edges. Each segment
-    has user-defined hexagonal Zernike phase errors (up to Z22).
-
-    Parameters
-    ----------
-    wf : obj
-        WaveFront class object
-
-    nrings : int
-        Number of rings of hexagons in aperture (e.g. 1 = a central hexagon
-        surrounded by a ring of hexagons)
-
-    hexrad : float
-        The distance in meters from the center of a hexagonal segment to a
-        vertex.
-
-    hexsep : float
-        The distance between the centers of adjacent hexagonal segments.
-
-    zernike_val : numpy ndarray
-        Array of dimensions (22, nhex) where nhex is the number of hexagonal
-        segments [nhex = nrings*(nrings+1)*3+1]. Each line in this array
-        specifies the hexagonal Zernike polynomial coefficients (Z1 to Z22) for
-        a segment. The Zernikes are Noll-ordered (see prop_zernikes in the
-        manual for a list of them or look at the prop_hex_zernikes.py routine in
-        the PROPER library). The values are in meters of RMS wavefront error.
-        Even if the center segment is made dark by /DARKCENTER, there must be an
-        entry for it.
-
-
-    Returns
-    -------
-    aperture : numpy ndarray
-        Transmission map for a segmented hexagonal aperture
-
-    phase : numpy ndarray, optional
-        Wavefront phase errors for a segmented hexagonal aperture
-
-
-    Other Parameters
-    ----------------
-    DARKCENTER : bool
-        If set, the central hexagonal segment transmission will be set to 0.0.
-
-    NO_APPLY : bool
-        If set, the aperture and phase maps are created but not applied to the
-        wavefront.
-
-    OMIT=omit
-        List of segment IDs to omit drawing, starting with 0. "zernike_val", if 
-        specified, must include entries for the omitted segments, but they are ignored.
-
-    ROTATION : float
-        The counterclockwise rotation in degrees of the aperture about its center.
-
-    XCENTER, YCENTER : float
-        The offset in meters of the aperture from the center of the wavefront.
-        By default, the aperture is centered within the wavefront.
-
-    Original translation by Navtej Saini
-    Revised 28 Oct 2019 - JEK - Fixed NO_APPLY and DARKCENTER logic to allow False setting
-    31 Mar 2022 - JEK - added OMIT option and set default values for xc & yc
-    2 May 2022 - JEK - fixed missing colons
-    """
-
-    if not "XCENTER" in kwargs:
-        xc = 0.
-    else:
-        xc = kwargs["XCENTER"]
-
-    if not "YCENTER" in kwargs:
-        yc = 0.
-    else:
-        yc = kwargs["YCENTER"]
-
-    if not "OMIT" in kwargs:
-        omit = -1
-    else:
-        omit = kwargs["OMIT"]
-
-    if "ROTATION" in kwargs:
-        angle = kwargs["ROTATION"]
-        anglerad = angle * np.pi / 180
-    else:
-        angle = 0.
-        anglerad =0.
-
-    n = proper.prop_get_gridsize(wf)
-    dx = proper.prop_get_sampling(wf)
-
-    aperture = np.zeros([n,n], dtype = np.float64)
-
-    ## 1 May 2018 - Navtej
-    ## Taking absolute value of zernike_val before summing up
-    include_phase_errors = np.sum(np.abs(zernike_val)) != 0.
-
-    if include_phase_errors:
-        zernike_index = np.arange(22, dtype=int) + 1
-        phase = np.zeros([n,n], dtype = np.float64)
-    else:
-        phase = 0
-
-    segi = 0
-
-    for iring in range(0, nrings+1):
-        x = hexsep * np.cos(30*np.pi/180) * iring
-        y = -nrings * hexsep + iring * hexsep * 0.5
-
-        for iseg in range(0, 2*nrings-iring+1):
-            # Create hex segment on one side
-            if segi not in omit:
-                xhex = x * np.cos(anglerad) - y * np.sin(anglerad) + xc
-                yhex = x * np.sin(anglerad) + y * np.cos(anglerad) + yc
-
-                segment = proper.prop_polygon(wf, 6, hexrad, xhex, yhex, ROTATION = angle)
-      
-                if (iring == 0 and iseg == nrings and proper.switch_set("DARKCENTER",**kwargs)) == False:
-                    aperture += segment
-
-                segment = segment != 0
-
-                if include_phase_errors:
-                    phase += segment * proper.prop_hex_zernikes(zernike_index, zernike_val[:,segi], n, dx, hexrad, xhex, yhex, ROTATION = angle)
-
-            segi += 1
-
-            # create hex segment on opposite side
-            if iring != 0:
-                if segi not in omit:
-                    xhex = -x * np.cos(anglerad) - y * np.sin(anglerad) + xc
-                    yhex = -x * np.sin(anglerad) + y * np.cos(anglerad) + yc
-
-                    segment = proper.prop_polygon(wf, 6, hexrad, xhex, yhex, ROTATION = angle)
-                    aperture += segment
-                    segment = segment != 0
-
-                    if include_phase_errors:
-                        phase += segment * proper.prop_hex_zernikes(zernike_index, zernike_val[:,segi], n, dx, hexrad, xhex, yhex, ROTATION = angle)
-
-                segi += 1
-
-            y += hexsep
-
-    if not proper.switch_set("NO_APPLY",**kwargs):
-        proper.prop_multiply(wf, aperture)
-        if include_phase_errors:
-            proper.prop_add_phase(wf, phase)
-
-    if include_phase_errors:
-        return (aperture, phase)
-    else:
-        return aperture
+#   Copyright 2016, 2017 California Institute of Technology
+#   Users must agree to abide by the restrictions listed in the
+#   file "LegalStuff.txt" in the PROPER library directory.
+#
+#   PROPER developed at Jet Propulsion Laboratory/California Inst. Technology
+#   Original IDL version by John Krist
+#   Python translation by Navtej Saini, with Luis Marchen and Nikta Amiri
+#
+
+
+import falco.proper as proper
+import numpy as np
+
+
+def prop_hex_wavefront(wf, nrings, hexrad, hexsep, zernike_val = 0, **kwargs):
+    """Compute transmission and wavefront phase errors for a segmented hexagonal
+    aperture and apply them to the current wavefront.
+
+    The hexagons making up the aperture have antialiased edges. Each segment
+    has user-defined hexagonal Zernike phase errors (up to Z22).
+
+    Parameters
+    ----------
+    wf : obj
+        WaveFront class object
+
+    nrings : int
+        Number of rings of hexagons in aperture (e.g. 1 = a central hexagon
+        surrounded by a ring of hexagons)
+
+    hexrad : float
+        The distance in meters from the center of a hexagonal segment to a
+        vertex.
+
+    hexsep : float
+        The distance between the centers of adjacent hexagonal segments.
+
+    zernike_val : numpy ndarray
+        Array of dimensions (22, nhex) where nhex is the number of hexagonal
+        segments [nhex = nrings*(nrings+1)*3+1]. Each line in this array
+        specifies the hexagonal Zernike polynomial coefficients (Z1 to Z22) for
+        a segment. The Zernikes are Noll-ordered (see prop_zernikes in the
+        manual for a list of them or look at the prop_hex_zernikes.py routine in
+        the PROPER library). The values are in meters of RMS wavefront error.
+        Even if the center segment is made dark by /DARKCENTER, there must be an
+        entry for it.
+
+
+    Returns
+    -------
+    aperture : numpy ndarray
+        Transmission map for a segmented hexagonal aperture
+
+    phase : numpy ndarray, optional
+        Wavefront phase errors for a segmented hexagonal aperture
+
+
+    Other Parameters
+    ----------------
+    DARKCENTER : bool
+        If set, the central hexagonal segment transmission will be set to 0.0.
+
+    NO_APPLY : bool
+        If set, the aperture and phase maps are created but not applied to the
+        wavefront.
+
+    OMIT=omit
+        List of segment IDs to omit drawing, starting with 0. "zernike_val", if 
+        specified, must include entries for the omitted segments, but they are ignored.
+
+    ROTATION : float
+        The counterclockwise rotation in degrees of the aperture about its center.
+
+    XCENTER, YCENTER : float
+        The offset in meters of the aperture from the center of the wavefront.
+        By default, the aperture is centered within the wavefront.
+
+    Original translation by Navtej Saini
+    Revised 28 Oct 2019 - JEK - Fixed NO_APPLY and DARKCENTER logic to allow False setting
+    31 Mar 2022 - JEK - added OMIT option and set default values for xc & yc
+    2 May 2022 - JEK - fixed missing colons
+    """
+
+    if not "XCENTER" in kwargs:
+        xc = 0.
+    else:
+        xc = kwargs["XCENTER"]
+
+    if not "YCENTER" in kwargs:
+        yc = 0.
+    else:
+        yc = kwargs["YCENTER"]
+
+    if not "OMIT" in kwargs:
+        omit = []
+    else:
+        omit = kwargs["OMIT"]
+
+    if "ROTATION" in kwargs:
+        angle = kwargs["ROTATION"]
+        anglerad = angle * np.pi / 180
+    else:
+        angle = 0.
+        anglerad =0.
+
+    n = proper.prop_get_gridsize(wf)
+    dx = proper.prop_get_sampling(wf)
+
+    aperture = np.zeros([n,n], dtype = np.float64)
+
+    ## 1 May 2018 - Navtej
+    ## Taking absolute value of zernike_val before summing up
+    include_phase_errors = np.sum(np.abs(zernike_val)) != 0.
+
+    if include_phase_errors:
+        zernike_index = np.arange(22, dtype=int) + 1
+        phase = np.zeros([n,n], dtype = np.float64)
+    else:
+        phase = 0
+
+    segi = 0
+
+    for iring in range(0, nrings+1):
+        x = hexsep * np.cos(30*np.pi/180) * iring
+        y = -nrings * hexsep + iring * hexsep * 0.5
+
+        for iseg in range(0, 2*nrings-iring+1):
+            # Create hex segment on one side
+            if segi not in omit:
+                xhex = x * np.cos(anglerad) - y * np.sin(anglerad) + xc
+                yhex = x * np.sin(anglerad) + y * np.cos(anglerad) + yc
+
+                segment = proper.prop_polygon(wf, 6, hexrad, xhex, yhex, ROTATION = angle)
+      
+                if (iring == 0 and iseg == nrings and proper.switch_set("DARKCENTER",**kwargs)) == False:
+                    aperture += segment
+
+                segment = segment != 0
+
+                if include_phase_errors:
+                    phase += segment * proper.prop_hex_zernikes(zernike_index, zernike_val[:,segi], n, dx, hexrad, xhex, yhex, ROTATION = angle)
+
+            segi += 1
+
+            # create hex segment on opposite side
+            if iring != 0:
+                if segi not in omit:
+                    xhex = -x * np.cos(anglerad) - y * np.sin(anglerad) + xc
+                    yhex = -x * np.sin(anglerad) + y * np.cos(anglerad) + yc
+
+                    segment = proper.prop_polygon(wf, 6, hexrad, xhex, yhex, ROTATION = angle)
+                    aperture += segment
+                    segment = segment != 0
+
+                    if include_phase_errors:
+                        phase += segment * proper.prop_hex_zernikes(zernike_index, zernike_val[:,segi], n, dx, hexrad, xhex, yhex, ROTATION = angle)
+
+                segi += 1
+
+            y += hexsep
+
+    if not proper.switch_set("NO_APPLY",**kwargs):
+        proper.prop_multiply(wf, aperture)
+        if include_phase_errors:
+            proper.prop_add_phase(wf, phase)
+
+    if include_phase_errors:
+        return (aperture, phase)
+    else:
+        return aperture
-- 
2.43.0


From 88aec56723c781a89f5624fdc3ff1c308fe77b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:02 +0000
Subject: [PATCH 63/97] fix: Zernike fit takes the given center and arrays that
 are not square

---
 falco/proper/prop_fit_zernikes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/falco/proper/prop_fit_zernikes.py b/falco/proper/prop_fit_zernikes.py
index fac4c35..c735196 100644
--- a/falco/proper/prop_fit_zernikes.py
+++ b/falco/proper/prop_fit_zernikes.py
@@ -75,13 +75,13 @@ def prop_fit_zernikes(wavefront0, pupil0, pupilradius0, nzer, **kwargs):
     if eps > 0 and nzer > 22:
         raise ValueError("PROP_FIT_ZERNIKES: ERROR: Limited to first 22 Obscured Zernikes.")            
 
-    nx = wavefront0.shape[0]
-    ny = wavefront0.shape[1]
+    ny = wavefront0.shape[0]
+    nx = wavefront0.shape[1]
     wavefront = wavefront0
     pupil = pupil0
     
-    if not "XC" in kwargs: xc = int(nx / 2)
-    if not "YC" in kwargs: yc = int(ny / 2)        
+    xc = kwargs["XC"] if "XC" in kwargs else int(nx / 2)
+    yc = kwargs["YC"] if "YC" in kwargs else int(ny / 2)
 
     if proper.switch_set("FIT",**kwargs):
         kval = [0,1]
@@ -177,7 +177,7 @@ def prop_fit_zernikes(wavefront0, pupil0, pupilradius0, nzer, **kwargs):
         else: 
             fitv = np.zeros((nw)) 
             for i in range(nzer): fitv += zcoeff[i] * ab[:,i]
-            fit = np.reshape(fitv, (nx, ny))
+            fit = np.reshape(fitv, (ny, nx))
 
     if k==1:
         return (zcoeff, fit) 
-- 
2.43.0


From bcae96b945a577a0e9662fe8651c48c8e22d094c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:04 +0000
Subject: [PATCH 64/97] fix: Zernike maps are normalized on the beam, not on a
 larger circle

---
 falco/zern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/zern.py b/falco/zern.py
index 584217e..9d765cc 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -376,7 +376,7 @@ def gen_norm_zern_maps(Nbeam, centering, indsZnoll):
     # PROPER setup values
     Dbeam = 1.  # Diameter of aperture, normalized to itself
     wl = 1e-6  # wavelength (m); Dummy value--no propagation here, so not used.
-    beam_diam_frac = Narray/Nbeam
+    beam_diam_frac = Nbeam/Narray
 
     # Initialize wavefront structure in PROPER
     bm = proper.prop_begin(Dbeam, wl, Narray, beam_diam_frac)
-- 
2.43.0


From 22e50b27904e68e3b547da69439805bffaa500cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:04 +0000
Subject: [PATCH 65/97] fix: Zernike maps accept a list of indices

---
 falco/zern.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/falco/zern.py b/falco/zern.py
index 9d765cc..41b7b32 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -363,9 +363,8 @@ def gen_norm_zern_maps(Nbeam, centering, indsZnoll):
     if centering not in _VALID_CENTERING:
         raise ValueError(_CENTERING_ERR)
 
-    # If a scalar integer, convert indsZnoll to an array so that it is indexable
-    if not (type(indsZnoll) == np.ndarray):
-        indsZnoll = np.array([indsZnoll])
+    # Convert indsZnoll to an array so that it is indexable
+    indsZnoll = np.atleast_1d(indsZnoll)
 
     # Set array size as minimum width to contain the beam.
     if 'interpixel' in centering:
-- 
2.43.0


From 35e266b810a26b8ebc65afbb61170bfd2bab9bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:49 +0000
Subject: [PATCH 66/97] fix: Zernike sensitivities of a single mode no longer
 fail

---
 falco/zern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/zern.py b/falco/zern.py
index 41b7b32..a34e990 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -207,7 +207,7 @@ def calc_zern_sens(mp):
 
     # Compute Zernike sensitivity values averaged across each annulus in dark hole
     # |dE|^2 averaged over wavelength and polarization state
-    dE2cube = np.squeeze(np.mean(np.mean(np.abs(dEZarray)**2, axis=3), axis=2))
+    dE2cube = np.mean(np.mean(np.abs(dEZarray)**2, axis=3), axis=2)
     dE2mat = np.zeros((Nzern, Nannuli))
     for iz in range(Nzern):
         dEtemp = np.squeeze(dE2cube[:, :, iz])
-- 
2.43.0


From 4a22a4be8ec597559e1ab6708edf8f9ebcd8ee8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:49 +0000
Subject: [PATCH 67/97] fix: Zernike sensitivities leave no aberration in the
 PROPER model

---
 falco/zern.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/falco/zern.py b/falco/zern.py
index a34e990..f9650f7 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -314,6 +314,7 @@ def falco_get_single_sim_Efield_LamPolZern(ni, inds_list_zern, mp):
         mp.full.zval_m = np.array([])
     zindex0 = copy.copy(mp.full.zindex)  # Save the original
     zval_m0 = copy.copy(mp.full.zval_m)  # Save the original
+    zval0 = copy.copy(getattr(mp.full, 'zval', zval_m0))  # Save the original
 
     if(mp.full.flagPROPER):  # WARNING: THIS OPTION HAS NOT BEEN TESTED
 
@@ -338,6 +339,8 @@ def falco_get_single_sim_Efield_LamPolZern(ni, inds_list_zern, mp):
     mp.P1.full.E = E0  # Reset to original value
     mp.full.zindex = zindex0
     mp.full.zval_m = zval_m0
+    if mp.full.flagPROPER:
+        mp.full.zval = zval0
 
     return Estar
 
-- 
2.43.0


From c4fc610a8945e885ad66ce522877d9a6650bca8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:36 +0000
Subject: [PATCH 68/97] fix: trial commands of a grid search leave no actuators
 pinned

---
 falco/ctrl.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index 3f8e574..521136b 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -871,8 +871,10 @@ def _efc(ni, vals_list, mp, cvar):
     """
     if any(mp.dm_ind == 1):
         DM1V0 = mp.dm1.V.copy()
+        DM1pinned0, DM1Vpinned0 = mp.dm1.pinned, mp.dm1.Vpinned
     if any(mp.dm_ind == 2):
         DM2V0 = mp.dm2.V.copy()
+        DM2pinned0, DM2Vpinned0 = mp.dm2.pinned, mp.dm2.Vpinned
     if any(mp.dm_ind == 8):
         DM8V0 = mp.dm8.V.copy()
     if any(mp.dm_ind == 9):
@@ -906,11 +908,14 @@ def _efc(ni, vals_list, mp, cvar):
         InormAvg = np.mean(Itotal[mp.Fend.corr.maskBool])
     dDM.Itotal = Itotal
 
-    # Reset voltage commands in mp
+    # Reset voltage commands in mp. Actuators reaching their limits only in
+    # this trial command are not pinned.
     if any(mp.dm_ind == 1):
         mp.dm1.V = DM1V0
+        mp.dm1.pinned, mp.dm1.Vpinned = DM1pinned0, DM1Vpinned0
     if any(mp.dm_ind == 2):
         mp.dm2.V = DM2V0
+        mp.dm2.pinned, mp.dm2.Vpinned = DM2pinned0, DM2Vpinned0
     if any(mp.dm_ind == 8):
         mp.dm8.V = DM8V0
     if any(mp.dm_ind == 9):
-- 
2.43.0


From 07c3144dfbd89e6c372967e48e754cf570197e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:36 +0000
Subject: [PATCH 69/97] fix: expected image starts from the command before the
 change

---
 falco/imaging.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/falco/imaging.py b/falco/imaging.py
index dbe7e65..32e5ce9 100644
--- a/falco/imaging.py
+++ b/falco/imaging.py
@@ -543,8 +543,10 @@ def get_expected_summed_image(mp, cvar, dDM):
 
     if(any(mp.dm_ind == 1)):
         DM1V0 = mp.dm1.V.copy()
+        DM1pinned0, DM1Vpinned0 = mp.dm1.pinned, mp.dm1.Vpinned
     if(any(mp.dm_ind == 2)):
         DM2V0 = mp.dm2.V.copy()
+        DM2pinned0, DM2Vpinned0 = mp.dm2.pinned, mp.dm2.Vpinned
     if(any(mp.dm_ind == 8)):
         DM8V0 = mp.dm8.V.copy()
     if(any(mp.dm_ind == 9)):
@@ -569,9 +571,11 @@ def get_expected_summed_image(mp, cvar, dDM):
 
     # Revert to the previous DM commands
     if any(mp.dm_ind == 1):
-        mp.dm1.V = mp.dm1.V - dDM.dDM1V
+        mp.dm1.V = DM1V0 - dDM.dDM1V
+        mp.dm1.pinned, mp.dm1.Vpinned = DM1pinned0, DM1Vpinned0
     if any(mp.dm_ind == 2):
-        mp.dm2.V = mp.dm2.V - dDM.dDM2V
+        mp.dm2.V = DM2V0 - dDM.dDM2V
+        mp.dm2.pinned, mp.dm2.Vpinned = DM2pinned0, DM2Vpinned0
     if any(mp.dm_ind == 8):
         mp.dm8.V = mp.dm8.V - dDM.dDM8V
     if any(mp.dm_ind == 9):
-- 
2.43.0


From d884aadf59345adcb9efa1a166e2c367a528fd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:34 +0000
Subject: [PATCH 70/97] fix: prop_end EXTRACT indexes the array with integers

---
 falco/proper/prop_end.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_end.py b/falco/proper/prop_end.py
index ce54a4d..a7b1a83 100644
--- a/falco/proper/prop_end.py
+++ b/falco/proper/prop_end.py
@@ -49,6 +49,6 @@ def prop_end(wf, **kwargs):
     if "EXTRACT" in kwargs:
         EXTRACT = kwargs["EXTRACT"]
         ny, nx = wf.wfarr.shape
-        wf.wfarr = wf.wfarr[ny/2-EXTRACT/2:ny/2+EXTRACT/2,nx/2-EXTRACT/2:nx/2+EXTRACT/2]
+        wf.wfarr = wf.wfarr[ny//2-EXTRACT//2:ny//2-EXTRACT//2+EXTRACT,nx//2-EXTRACT//2:nx//2-EXTRACT//2+EXTRACT]
 
     return (wf.wfarr, sampling)
-- 
2.43.0


From a6d11b52ec5f67b5a663cb210da26b62878529ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:34 +0000
Subject: [PATCH 71/97] fix: prop_get_refradius is zero for a planar reference
 surface

---
 falco/proper/prop_get_refradius.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/falco/proper/prop_get_refradius.py b/falco/proper/prop_get_refradius.py
index deae935..4a6c3df 100644
--- a/falco/proper/prop_get_refradius.py
+++ b/falco/proper/prop_get_refradius.py
@@ -30,4 +30,7 @@ def prop_get_refradius(wf):
         Radius of curvature of sphere to which the current wavefront's phase
         is referenced.
     """
+    if wf.reference_surface == "PLANAR":
+        return 0.0
+
     return wf.z - wf.z_w0
-- 
2.43.0


From 14447e56cfa8f584c31a366c9d64b2a8ef752f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:34 +0000
Subject: [PATCH 72/97] fix: prop_lens handles a far-field beam on a planar
 reference surface

---
 falco/proper/prop_lens.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/falco/proper/prop_lens.py b/falco/proper/prop_lens.py
index d38ad6e..43d45f0 100644
--- a/falco/proper/prop_lens.py
+++ b/falco/proper/prop_lens.py
@@ -118,7 +118,10 @@ def prop_lens(wf, lens_fl, surface_name = ""):
     elif wf.propagator_type == "INSIDE__to_OUTSIDE":
         lens_phase = 1./lens_fl + 1./R_beam
     elif wf.propagator_type == "OUTSIDE_to_INSIDE_":
-        lens_phase = 1./lens_fl - 1./R_beam_old        
+        if R_beam_old == 0.0:
+            lens_phase = 1./lens_fl
+        else:
+            lens_phase = 1./lens_fl - 1./R_beam_old
     elif  wf.propagator_type == "OUTSIDE_to_OUTSIDE":
         if R_beam_old == 0.0:
             lens_phase = 1./lens_fl + 1./R_beam
-- 
2.43.0


From 9b0dac200117e6c7930012614ecd50d0e4c9e789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:34 +0000
Subject: [PATCH 73/97] fix: prop_propagate tabulates the beam diameter, not
 its radius

---
 falco/proper/prop_propagate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_propagate.py b/falco/proper/prop_propagate.py
index 524634a..30ea529 100644
--- a/falco/proper/prop_propagate.py
+++ b/falco/proper/prop_propagate.py
@@ -78,7 +78,7 @@ def prop_propagate(wf, dz, surface_name = "", **kwargs):
     if proper.do_table:
         proper.sampling_list[proper.action_num] = wf.dx
         proper.distance_list[proper.action_num] = dz
-        proper.beam_diam_list[proper.action_num] = 1 * proper.prop_get_beamradius(wf)
+        proper.beam_diam_list[proper.action_num] = 2 * proper.prop_get_beamradius(wf)
         
         if surface_name != "":
            proper.surface_name_list[proper.action_num] = surface_name
-- 
2.43.0


From 8018c1db03a0fdc119c43775c78c23ac69e019f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:34 +0000
Subject: [PATCH 74/97] fix: prop_state restores the saved wavefront into the
 given one

---
 falco/proper/prop_state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/proper/prop_state.py b/falco/proper/prop_state.py
index fcd75a2..b2d0354 100644
--- a/falco/proper/prop_state.py
+++ b/falco/proper/prop_state.py
@@ -44,9 +44,9 @@ def prop_state(wf):
     proper.n = int(0)
     proper.first_pass = np.fix(0)
     
-    statedata = np.load(statefile_lam)
+    statedata = np.load(statefile_lam, allow_pickle=True)
     proper.total_original_pupil = statedata["total_original_pupil"]
-    wf = statedata["wf"].tolist()
+    wf.__dict__.update(statedata["wf"].item().__dict__)
     proper.n = wf.wfarr.shape[0]
         
     return
-- 
2.43.0


From 03dcaf1b0333b5afcf670f8d5da1f04b739cac8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:34 +0000
Subject: [PATCH 75/97] fix: prop_end_savestate deletes the state files that
 were written

---
 falco/proper/prop_end_savestate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_end_savestate.py b/falco/proper/prop_end_savestate.py
index 3738d59..42581c1 100644
--- a/falco/proper/prop_end_savestate.py
+++ b/falco/proper/prop_end_savestate.py
@@ -31,7 +31,7 @@ def prop_end_savestate():
 
     statefile = proper.statefile
 
-    sfiles = glob('*' + statefile)
+    sfiles = glob('*' + statefile + '.npz')
     if len(sfiles) > 0:
         for sfile in sfiles:
             os.remove(sfile)
-- 
2.43.0


From edffb0b29ca4218988aceb506aa215e364722d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:34 +0000
Subject: [PATCH 76/97] fix: prop_run accepts a wavelength file with a single
 line

---
 falco/proper/prop_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_run.py b/falco/proper/prop_run.py
index 612aefd..4a2bc91 100644
--- a/falco/proper/prop_run.py
+++ b/falco/proper/prop_run.py
@@ -113,7 +113,7 @@ def prop_run(routine_name, lambda0, gridsize, **kwargs):
 
     if type(lambda0) == str:
         try:
-            lam, throughput = np.loadtxt(lambda0, unpack = True, usecols = (0,1))
+            lam, throughput = np.loadtxt(lambda0, unpack = True, usecols = (0,1), ndmin = 2)
         except IOError:
             raise IOError("Unable to open wavelength file %s" %(lambda0))
 
-- 
2.43.0


From c39a47fa9ad1452f668f1f3398c2011cea7259f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:35 +0000
Subject: [PATCH 77/97] fix: prop_lens does not divide by zero when collimating
 to within rounding

---
 falco/proper/prop_lens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_lens.py b/falco/proper/prop_lens.py
index 43d45f0..41638cc 100644
--- a/falco/proper/prop_lens.py
+++ b/falco/proper/prop_lens.py
@@ -53,7 +53,7 @@ def prop_lens(wf, lens_fl, surface_name = ""):
     if (wf.z - wf.z_w0) != 0.0:     # lens is not at focus or entrance pupil
         gR_beam_old = (wf.z - wf.z_w0) + wf.z_Rayleigh**2 / (wf.z - wf.z_w0)
         gR_beam_old_inf = 0.
-        if gR_beam_old != lens_fl:
+        if 1./gR_beam_old != 1./lens_fl:
             gR_beam = 1./(1./gR_beam_old - 1./lens_fl)
             gR_beam_inf = 0
             if proper.verbose:
-- 
2.43.0


From 236009e20a1452ae0566f356a3fdc17798cb15ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:18 +0000
Subject: [PATCH 78/97] fix: prop_ellipse accepts an ellipse beyond the edge of
 the grid

---
 falco/proper/prop_ellipse.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/falco/proper/prop_ellipse.py b/falco/proper/prop_ellipse.py
index 9d8becd..e69b835 100644
--- a/falco/proper/prop_ellipse.py
+++ b/falco/proper/prop_ellipse.py
@@ -105,8 +105,6 @@ def prop_ellipse(wf, xradius, yradius, xc = 0.0, yc = 0.0, **kwargs):
     xr = (x * cost - y * sint) / xrad_pix
     yr = (x * sint + y * cost) / yrad_pix
     r = np.sqrt(xr*xr + yr*yr)
-    drx = np.abs(r[0,1] - r[0,0])
-    dry = np.abs(r[1,0] - r[0,0])
 
     delx = 1.0 / xrad_pix
     dely = 1.0 / yrad_pix
-- 
2.43.0


From c0e9e99c131458608284c4e3e822419d2850ff02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:24 +0000
Subject: [PATCH 79/97] fix: prop_rounded_rectangle indexes the mask with
 integers

---
 falco/proper/prop_rounded_rectangle.py | 35 +++++++++++++-------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/falco/proper/prop_rounded_rectangle.py b/falco/proper/prop_rounded_rectangle.py
index aa4335b..fd5d6ce 100644
--- a/falco/proper/prop_rounded_rectangle.py
+++ b/falco/proper/prop_rounded_rectangle.py
@@ -9,6 +9,7 @@
 
 
 import falco.proper as proper
+import numpy as np
 
 
 def prop_rounded_rectangle(wf, corner_radius, width, height, xc = 0.0, yc = 0.0):
@@ -42,15 +43,15 @@ def prop_rounded_rectangle(wf, corner_radius, width, height, xc = 0.0, yc = 0.0)
     n = proper.prop_get_gridsize(wf)
     
     # x,y offset of the circle defining rounded corner (meters)
-    rad_pix = corner_radius/dx
+    rad_pix = int(np.ceil(corner_radius/dx))
     xoff = width/2. - corner_radius
     yoff = height/2. - corner_radius
     
     mask = proper.prop_rectangle(wf, width, height, xc, yc)
     
     circle = proper.prop_ellipse(wf, corner_radius, corner_radius, xoff+xc, yoff+yc)
-    xoff_pix = (xoff+xc) / dx + n//2
-    yoff_pix = (yoff+yc) / dx + n//2
+    xoff_pix = int(np.round((xoff+xc)/dx)) + n//2
+    yoff_pix = int(np.round((yoff+yc)/dx)) + n//2
     
     if xoff_pix < 0:
         x1 = 0
@@ -60,7 +61,7 @@ def prop_rounded_rectangle(wf, corner_radius, width, height, xc = 0.0, yc = 0.0)
     if xoff_pix + rad_pix + 3 > n:
         x2 = n
     else:
-        x2 = xoff_pix + rad_pix + 3
+        x2 = max(xoff_pix + rad_pix + 3, 0)
                         
     if yoff_pix < 0:
         y1 = 0
@@ -70,14 +71,14 @@ def prop_rounded_rectangle(wf, corner_radius, width, height, xc = 0.0, yc = 0.0)
     if yoff_pix + rad_pix + 3 > n:
         y2 = n
     else:
-        y2 = yoff_pix + rad_pix + 3
+        y2 = max(yoff_pix + rad_pix + 3, 0)
     
     mask[y1:y2,x1:x2] = 0
     mask[y1:y2,x1:x2] = circle[y1:y2,x1:x2]
     
     circle = proper.prop_ellipse(wf, corner_radius, corner_radius, xoff+xc, -yoff+yc)
-    xoff_pix = (xoff+xc)/dx + n//2
-    yoff_pix = (-yoff+yc)/dx + n//2
+    xoff_pix = int(np.round((xoff+xc)/dx)) + n//2
+    yoff_pix = int(np.round((-yoff+yc)/dx)) + n//2
     
     if xoff_pix < 0:
         x1 = 0
@@ -87,7 +88,7 @@ def prop_rounded_rectangle(wf, corner_radius, width, height, xc = 0.0, yc = 0.0)
     if xoff_pix + rad_pix + 3 > n:
         x2 = n
     else:
-        x2 = xoff_pix + rad_pix + 3
+        x2 = max(xoff_pix + rad_pix + 3, 0)
         
     if yoff_pix - rad_pix - 2 < 0:
         y1 = 0
@@ -97,14 +98,14 @@ def prop_rounded_rectangle(wf, corner_radius, width, height, xc = 0.0, yc = 0.0)
     if yoff_pix > n:
         y2 = n
     else:
-        y2 = yoff_pix + 1
+        y2 = max(yoff_pix + 1, 0)
             
     mask[y1:y2,x1:x2] = 0
     mask[y1:y2,x1:x2] = circle[y1:y2,x1:x2]
     
     circle = proper.prop_ellipse(wf, corner_radius, corner_radius, -xoff+xc, yoff+yc)
-    xoff_pix = (-xoff+xc) / dx + n//2
-    yoff_pix = (yoff+yc) / dx + n//2
+    xoff_pix = int(np.round((-xoff+xc)/dx)) + n//2
+    yoff_pix = int(np.round((yoff+yc)/dx)) + n//2
     
     if xoff_pix - rad_pix - 2 < 0:
         x1 = 0
@@ -114,7 +115,7 @@ def prop_rounded_rectangle(wf, corner_radius, width, height, xc = 0.0, yc = 0.0)
     if xoff_pix > n:
         x2 = n
     else:
-        x2 = xoff_pix + 1
+        x2 = max(xoff_pix + 1, 0)
         
     if yoff_pix < 0:
         y1 = 0
@@ -124,14 +125,14 @@ def prop_rounded_rectangle(wf, corner_radius, width, height, xc = 0.0, yc = 0.0)
     if yoff_pix + rad_pix + 3 > n:
         y2 = n
     else:
-        y2 = yoff_pix + rad_pix + 3
+        y2 = max(yoff_pix + rad_pix + 3, 0)
 
     mask[y1:y2,x1:x2] = 0
     mask[y1:y2,x1:x2] = circle[y1:y2,x1:x2] 
 
     circle = proper.prop_ellipse(wf, corner_radius, corner_radius, -xoff+xc, -yoff+yc)
-    xoff_pix = (-xoff+xc) / dx + n//2
-    yoff_pix = (-yoff+yc) / dx + n//2
+    xoff_pix = int(np.round((-xoff+xc)/dx)) + n//2
+    yoff_pix = int(np.round((-yoff+yc)/dx)) + n//2
     
     if xoff_pix - rad_pix - 2 < 0:
         x1 = 0
@@ -141,7 +142,7 @@ def prop_rounded_rectangle(wf, corner_radius, width, height, xc = 0.0, yc = 0.0)
     if xoff_pix > n:
         x2 = n
     else:
-        x2 = xoff_pix + 1
+        x2 = max(xoff_pix + 1, 0)
         
     if yoff_pix - rad_pix - 2 < 0:
         y1 = 0
@@ -151,7 +152,7 @@ def prop_rounded_rectangle(wf, corner_radius, width, height, xc = 0.0, yc = 0.0)
     if yoff_pix > n:
         y2 = n
     else:
-        y2 = yoff_pix + 1
+        y2 = max(yoff_pix + 1, 0)
 
     mask[y1:y2,x1:x2] = 0
     mask[y1:y2,x1:x2] = circle[y1:y2,x1:x2] 
-- 
2.43.0


From 745320cf124c292b45c3735d73b8833efbd6005a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:15 +0000
Subject: [PATCH 80/97] fix: prop_resamplemap shifts the map in y by yshift

---
 falco/proper/prop_resamplemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_resamplemap.py b/falco/proper/prop_resamplemap.py
index 8369f27..b95c982 100644
--- a/falco/proper/prop_resamplemap.py
+++ b/falco/proper/prop_resamplemap.py
@@ -63,7 +63,7 @@ def prop_resamplemap(wf, dmap, pixscale, xc, yc, xshift = 0., yshift = 0.):
     
     y = np.arange(n, dtype = np.float64) - int(n/2)
     y = y * proper.prop_get_sampling(wf) / pixscale
-    y += yc - xshift/pixscale
+    y += yc - yshift/pixscale
 
     if proper.use_cubic_conv:
         dmap = proper.prop_cubic_conv(dmap.T, x, y, GRID=True)
-- 
2.43.0


From aec68d60279c3a0f032ccfff57143ac8d9b18f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:15 +0000
Subject: [PATCH 81/97] fix: default centre of a non-square error map

---
 falco/proper/prop_readmap.py  | 4 ++--
 falco/proper/prop_writemap.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/falco/proper/prop_readmap.py b/falco/proper/prop_readmap.py
index 88815f6..33e2d30 100644
--- a/falco/proper/prop_readmap.py
+++ b/falco/proper/prop_readmap.py
@@ -75,8 +75,8 @@ def prop_readmap(wf, filename, xshift = 0, yshift = 0, **kwargs):
     
     if not "XC_MAP" in kwargs:
         s = dmap.shape
-        xc = s[0]//2
-        yc = s[1]//2
+        xc = s[1]//2
+        yc = s[0]//2
     else:
         xc = kwargs["XC_MAP"]
         yc = kwargs["YC_MAP"]
diff --git a/falco/proper/prop_writemap.py b/falco/proper/prop_writemap.py
index 5d9ed71..e977c53 100644
--- a/falco/proper/prop_writemap.py
+++ b/falco/proper/prop_writemap.py
@@ -52,7 +52,7 @@ def prop_writemap(dmap, filename, **kwargs):
         raise ValueError('PROP_WRITEMAP: Either SAMPLING or RADIUS_PIX keyword \
                     is required. Stopping.')
 
-    nx, ny = dmap.shape
+    ny, nx = dmap.shape
 
     if proper.switch_set("AMPLITUDE",**kwargs):
         maptype = "amplitude"
-- 
2.43.0


From d3c93852f27def5c7aeac94c7acfe6dca0d97012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:15 +0000
Subject: [PATCH 82/97] fix: prop_errormap reads amplitude maps

---
 falco/proper/prop_errormap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_errormap.py b/falco/proper/prop_errormap.py
index bc2e502..359dfad 100644
--- a/falco/proper/prop_errormap.py
+++ b/falco/proper/prop_errormap.py
@@ -89,7 +89,7 @@ def prop_errormap(wf, filename, xshift = 0., yshift = 0., **kwargs):
         If map type is MIRROR_SURFACE, WAVEFRONT, or AMPLITUDE.
     """
 
-    if proper.switch_set("AMPLITUDE",**kwargs) and (proper.switch_set("NM",**kwargs) or proper_switch_set("MICRONS",**kwargs)):
+    if proper.switch_set("AMPLITUDE",**kwargs) and (proper.switch_set("NM",**kwargs) or proper.switch_set("MICRONS",**kwargs)):
         raise SystemExit("ERRORMAP: Cannot specify NM or MICRON for an amplitude map")
     
     if proper.switch_set("NM",**kwargs) and proper.switch_set("MICRONS",**kwargs):
-- 
2.43.0


From 368629e9dadbc9ea22957aeb93199359d68251dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:15 +0000
Subject: [PATCH 83/97] fix: prop_magnify leaves no uninitialized border in
 complex images

---
 falco/proper/prop_magnify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/proper/prop_magnify.py b/falco/proper/prop_magnify.py
index caa0bc6..ced80d9 100644
--- a/falco/proper/prop_magnify.py
+++ b/falco/proper/prop_magnify.py
@@ -99,13 +99,13 @@ def prop_magnify(image_in, mag0, size_out0 = 0, **kwargs):
             libszoom_c = ct.cdll.LoadLibrary(proper.szoom_c_lib)
 
             if is_complex:
-                image_out = np.empty([size_out, size_out], dtype = np.complex128)
+                image_out = np.zeros([size_out, size_out], dtype = np.complex128)
 
                 # real and imaginary part of the complex array are contiguous in memory.
                 # need to copy real and imaginary parts to double arrays to process
 
                 image_in_array = np.copy(image_in.real.astype(np.double))
-                image_out_array = np.empty((size_out,size_out), dtype = np.double)
+                image_out_array = np.zeros((size_out,size_out), dtype = np.double)
                 libszoom_c.prop_szoom_c(image_in_array.T.ctypes.data_as(ct.c_void_p),
                             ct.c_int(image_in_array.T.shape[0]),
                             image_out_array.ctypes.data_as(ct.c_void_p),
-- 
2.43.0


From 87adcfbaeef6dff3b5d37ba98b07839df729f1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:16 +0000
Subject: [PATCH 84/97] fix: prop_szoom rounds to the nearest pixel like the C
 routine

---
 falco/proper/prop_szoom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/proper/prop_szoom.py b/falco/proper/prop_szoom.py
index 4770de9..a6feadf 100644
--- a/falco/proper/prop_szoom.py
+++ b/falco/proper/prop_szoom.py
@@ -27,9 +27,9 @@ def round(val):
         Nearest integer value
     """
     if val < 0:
-        return np.floor(val)
+        return -np.floor(-val + 0.5)
     else:
-        return np.ceil(val)
+        return np.floor(val + 0.5)
 
 
 def prop_szoom(image_in, mag, n_out = 0):
-- 
2.43.0


From 66695c6b17ce00ba339077629dc4d06699eb2692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:16 +0000
Subject: [PATCH 85/97] fix: prop_pixellate returns the requested output size

---
 falco/proper/prop_pixellate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_pixellate.py b/falco/proper/prop_pixellate.py
index 79b8324..6dfb8ee 100644
--- a/falco/proper/prop_pixellate.py
+++ b/falco/proper/prop_pixellate.py
@@ -70,7 +70,7 @@ def prop_pixellate(image_in, sampling_in, sampling_out, n_out = 0):
     
     # Image is integrated over pixels but has original sampling; now, resample
     # pixel sampling
-    if n_out != 0:
+    if n_out == 0:
         n_out = int(np.fix(n_in * mag))
         
     new = proper.prop_magnify(convolved_image, mag, n_out)
-- 
2.43.0


From a7ff3015a54741c43b81256f7004c2e5467d0a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:16 +0000
Subject: [PATCH 86/97] fix: prop_psd_errormap does not change which FFT is
 used

---
 falco/proper/prop_psd_errormap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_psd_errormap.py b/falco/proper/prop_psd_errormap.py
index 61b4d45..15cb5ee 100644
--- a/falco/proper/prop_psd_errormap.py
+++ b/falco/proper/prop_psd_errormap.py
@@ -183,7 +183,7 @@ def prop_psd_errormap(wf, amp, b, c, **kwargs):
             kpsd[kpsd > max_frequency] = 0.0
             psd2d *= (kpsd)
 
-        if proper.prop_use_fftw() == 1:
+        if proper.use_fftw:
             dmap_fft = proper.prop_shift_center(np.sqrt(psd2d)/dk*np.exp(i*phase))
             proper.prop_fftw(dmap_fft, directionFFTW = 'FFTW_FORWARD')
             dmap_fft /= np.size(psd2d)
-- 
2.43.0


From edb016a1a510471e20b058b0ffcb5dc5f04c66e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:16 +0000
Subject: [PATCH 87/97] fix: prop_psd_errormap rotates both frequency axes by
 the same angle

---
 falco/proper/prop_psd_errormap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/proper/prop_psd_errormap.py b/falco/proper/prop_psd_errormap.py
index 15cb5ee..5313b49 100644
--- a/falco/proper/prop_psd_errormap.py
+++ b/falco/proper/prop_psd_errormap.py
@@ -161,8 +161,8 @@ def prop_psd_errormap(wf, amp, b, c, **kwargs):
         xk = np.tile(np.arange(n, dtype = np.float64), (n,1)) - int(n/2)
         yk = xk.T
 
-        xk = xk * np.cos(-rot_angle) - yk * np.sin(-rot_angle)
-        yk = xk * np.sin(-rot_angle) + yk * np.cos(-rot_angle)
+        xk, yk = (xk * np.cos(-rot_angle) - yk * np.sin(-rot_angle),
+                  xk * np.sin(-rot_angle) + yk * np.cos(-rot_angle))
         yk = yk * np.cos(-inc_angle)
         kpsd = np.sqrt(xk**2 + yk**2) * dk   # cycles/meter
         if proper.switch_set("TPF",**kwargs):
-- 
2.43.0


From ac75deaddff10bf43181a42a0f97301992d729bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:16 +0000
Subject: [PATCH 88/97] fix: MAX_FREQUENCY of prop_psd_errormap truncates the
 PSD without reshaping it

---
 falco/proper/prop_psd_errormap.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/falco/proper/prop_psd_errormap.py b/falco/proper/prop_psd_errormap.py
index 5313b49..6ecc8ae 100644
--- a/falco/proper/prop_psd_errormap.py
+++ b/falco/proper/prop_psd_errormap.py
@@ -180,8 +180,7 @@ def prop_psd_errormap(wf, amp, b, c, **kwargs):
         # if specified, zero-out spatial frequencies > max_frequency
         if "MAX_FREQUENCY" in kwargs:
             max_frequency = kwargs["MAX_FREQUENCY"]
-            kpsd[kpsd > max_frequency] = 0.0
-            psd2d *= (kpsd)
+            psd2d *= (kpsd <= max_frequency)
 
         if proper.use_fftw:
             dmap_fft = proper.prop_shift_center(np.sqrt(psd2d)/dk*np.exp(i*phase))
-- 
2.43.0


From 2f4af94d618866ba09bb69a7a610eb869ea3e769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:35 +0000
Subject: [PATCH 89/97] fix: prop_cubic_conv passes array sizes to the C
 routines in X, Y order

---
 falco/proper/prop_cubic_conv.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/falco/proper/prop_cubic_conv.py b/falco/proper/prop_cubic_conv.py
index d52a96b..8984088 100644
--- a/falco/proper/prop_cubic_conv.py
+++ b/falco/proper/prop_cubic_conv.py
@@ -66,6 +66,10 @@ def prop_cubic_conv(image_in, xval, yval, THREADED = True, GRID = True):
     else:
         is_complex = 0
 
+    # The threaded routine assumes that every row has the same X coordinates
+    if not GRID:
+        THREADED = False
+
     # Number of threads to use?
     if THREADED:
         nthreads = mp.cpu_count()
@@ -112,14 +116,14 @@ def prop_cubic_conv(image_in, xval, yval, THREADED = True, GRID = True):
         image_out_imag = np.empty((ydim,xdim), dtype = np.double)
 
         # Interplolate the real input array
-        libcconv.cubic_conv_c(image_in_real.ctypes.data_as(ct.c_void_p), ct.c_int(image_in_real.shape[0]),
-        ct.c_int(image_in_real.shape[1]), image_out_real.ctypes.data_as(ct.c_void_p), ct.c_int(image_out_real.shape[0]),
-        ct.c_int(image_out_real.shape[1]), x.ctypes.data_as(ct.c_void_p), y.ctypes.data_as(ct.c_void_p), ct.c_int(nthreads))
+        libcconv.cubic_conv_c(image_in_real.ctypes.data_as(ct.c_void_p), ct.c_int(image_in_real.shape[1]),
+        ct.c_int(image_in_real.shape[0]), image_out_real.ctypes.data_as(ct.c_void_p), ct.c_int(image_out_real.shape[1]),
+        ct.c_int(image_out_real.shape[0]), x.ctypes.data_as(ct.c_void_p), y.ctypes.data_as(ct.c_void_p), ct.c_int(nthreads))
 
         # Interplolate the imag input array
-        libcconv.cubic_conv_c(image_in_imag.ctypes.data_as(ct.c_void_p), ct.c_int(image_in_imag.shape[0]),
-        ct.c_int(image_in_imag.shape[1]), image_out_imag.ctypes.data_as(ct.c_void_p), ct.c_int(image_out_imag.shape[0]),
-        ct.c_int(image_out_imag.shape[1]), x.ctypes.data_as(ct.c_void_p), y.ctypes.data_as(ct.c_void_p), ct.c_int(nthreads))
+        libcconv.cubic_conv_c(image_in_imag.ctypes.data_as(ct.c_void_p), ct.c_int(image_in_imag.shape[1]),
+        ct.c_int(image_in_imag.shape[0]), image_out_imag.ctypes.data_as(ct.c_void_p), ct.c_int(image_out_imag.shape[1]),
+        ct.c_int(image_out_imag.shape[0]), x.ctypes.data_as(ct.c_void_p), y.ctypes.data_as(ct.c_void_p), ct.c_int(nthreads))
 
         image_out.real = image_out_real
         image_out.imag = image_out_imag
@@ -131,9 +135,9 @@ def prop_cubic_conv(image_in, xval, yval, THREADED = True, GRID = True):
         image_out = np.zeros((ydim,xdim), dtype = np.double)
 
         # Interplolate the input array
-        libcconv.cubic_conv_c(image_in.ctypes.data_as(ct.c_void_p), ct.c_int(image_in.shape[0]),
-        ct.c_int(image_in.shape[1]), image_out.ctypes.data_as(ct.c_void_p), ct.c_int(image_out.shape[0]),
-        ct.c_int(image_out.shape[1]), x.ctypes.data_as(ct.c_void_p), y.ctypes.data_as(ct.c_void_p), ct.c_int(nthreads))
+        libcconv.cubic_conv_c(image_in.ctypes.data_as(ct.c_void_p), ct.c_int(image_in.shape[1]),
+        ct.c_int(image_in.shape[0]), image_out.ctypes.data_as(ct.c_void_p), ct.c_int(image_out.shape[1]),
+        ct.c_int(image_out.shape[0]), x.ctypes.data_as(ct.c_void_p), y.ctypes.data_as(ct.c_void_p), ct.c_int(nthreads))
 
     if image_in_dtype == int:
         image_out = image_out.astype(int)
-- 
2.43.0


From fa2a68653d9262935d7830e5fcef4ff4176ac2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:35 +0000
Subject: [PATCH 90/97] fix: prop_rotate honours the center, shift and missing
 value it documents

---
 falco/proper/prop_rotate.py | 61 +++++++++++++++----------------------
 1 file changed, 25 insertions(+), 36 deletions(-)

diff --git a/falco/proper/prop_rotate.py b/falco/proper/prop_rotate.py
index 4380588..574ea4b 100644
--- a/falco/proper/prop_rotate.py
+++ b/falco/proper/prop_rotate.py
@@ -13,9 +13,9 @@ import numpy as np
 
 if not proper.use_cubic_conv:
     try:
-        from scipy.ndimage import rotate
+        from scipy.ndimage import map_coordinates
     except:
-        from scipy.ndimage.interpolation import rotate
+        from scipy.ndimage.interpolation import map_coordinates
         
 
 
@@ -57,40 +57,29 @@ def prop_rotate(old_image, theta, **kwargs):
         
     new_image = np.copy(old_image)
     
+    ny, nx = old_image.shape
+    xc = kwargs.get("XC", nx // 2)
+    yc = kwargs.get("YC", ny // 2)
+    xshift = kwargs.get("XSHIFT", 0.)
+    yshift = kwargs.get("YSHIFT", 0.)
+    missing = kwargs.get("MISSING", 0.)
+
+    t = -theta * np.pi / 180.
+
+    x0 = np.arange(nx, dtype = np.float64) - xc - xshift
+    y0 = (np.arange(ny, dtype = np.float64) - yc - yshift)[:,np.newaxis]
+    xi = x0 * np.cos(t) - y0 * np.sin(t) + xc
+    yi = x0 * np.sin(t) + y0 * np.cos(t) + yc
+
     if proper.use_cubic_conv:
-        n = old_image.shape[0]
-    
-        if not "XC" in kwargs:
-            XC = int(n / 2)
-        
-        if not "YC" in kwargs:
-            YC = int(n / 2)
-        
-        if not "XSHIFT" in kwargs:
-            xshift = 0.
-    
-        if not "YSHIFT" in kwargs:
-            yshift = 0.        
-        
-        if not "MISSING" in kwargs:
-            missing = 0.    
-        
-        t = -theta * np.pi / 180.
-    
-        x0 = np.arange(n, dtype = np.float64) - XC - xshift
-    
-        for j in range(n):
-            y0 = j - YC - yshift
-            xi = x0 * np.cos(t) - y0 * np.sin(t) + YC
-            yi = x0 * np.sin(t) + y0 * np.cos(t) + XC
-        
-            new_image[j,:] = proper.prop_cubic_conv(old_image, xi, yi, GRID = False)
+        new_image[:,:] = proper.prop_cubic_conv(old_image, xi, yi, GRID = False)
+    elif is_complex:
+        new_image.real = map_coordinates(old_image.real, [yi, xi], order = 3, mode = "nearest")
+        new_image.imag = map_coordinates(old_image.imag, [yi, xi], order = 3, mode = "nearest")
     else:
-        theta = -1. * theta
-        if is_complex:
-            new_image.real = rotate(old_image.real, theta, reshape = False, prefilter = True) 
-            new_image.imag = rotate(old_image.imag, theta, reshape = False, prefilter = True)
-        else:
-            new_image = rotate(old_image, theta, reshape = False, prefilter = False)
-    
+        new_image[:,:] = map_coordinates(old_image, [yi, xi], order = 3, mode = "nearest")
+
+    tol = 1e-9 * max(nx, ny)
+    new_image[(xi < -tol) | (xi > nx-1+tol) | (yi < -tol) | (yi > ny-1+tol)] = missing
+
     return new_image
-- 
2.43.0


From 504a2a2a09cd7c18062d1e1aa6153386ede30354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:19 +0000
Subject: [PATCH 91/97] fix: compiled interpolation sees the image as it is
 laid out

---
 falco/dm.py                      | 4 ++--
 falco/proper/prop_cubic_conv.py  | 6 +++---
 falco/proper/prop_dm.py          | 4 ++--
 falco/proper/prop_resamplemap.py | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index b1b9a68..dd6aa2a 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -421,7 +421,7 @@ def propcustom_dm(wf, dm_z0, dm_xc, dm_yc, spacing=0., **kwargs):
         x = (np.arange(5, dtype=np.float64) - 2) * dx_dm
 
         if proper.use_cubic_conv:
-            inf_kernel = proper.prop_cubic_conv(inf.T, x/dx_inf+xc_inf,
+            inf_kernel = proper.prop_cubic_conv(inf, x/dx_inf+xc_inf,
                                                 x/dx_inf+yc_inf, GRID=True)
         else:
             xygrid = np.meshgrid(x/dx_inf+xc_inf, x/dx_inf+yc_inf)
@@ -510,7 +510,7 @@ def propcustom_dm(wf, dm_z0, dm_xc, dm_yc, spacing=0., **kwargs):
     ydm = (ys + dm_yc * dx_dm) / dx_inf + yoff_grid
 
     if proper.use_cubic_conv:
-        grid = proper.prop_cubic_conv(dm_grid.T, xdm, ydm, GRID=False)
+        grid = proper.prop_cubic_conv(dm_grid, xdm, ydm, GRID=False)
         grid = grid.reshape([xdm.shape[1], xdm.shape[0]])
     else:
         grid = map_coordinates(dm_grid.T, [xdm, ydm], order=3,
diff --git a/falco/proper/prop_cubic_conv.py b/falco/proper/prop_cubic_conv.py
index 8984088..16912d2 100644
--- a/falco/proper/prop_cubic_conv.py
+++ b/falco/proper/prop_cubic_conv.py
@@ -109,8 +109,8 @@ def prop_cubic_conv(image_in, xval, yval, THREADED = True, GRID = True):
 
         # real and imaginary part of the complex array are contiguous in memory.
         # need to copy real and imaginary parts to double arrays to process
-        image_in_real = np.copy(image_in.real.astype(np.double))
-        image_in_imag = np.copy(image_in.imag.astype(np.double))
+        image_in_real = np.ascontiguousarray(image_in.real, dtype = np.double)
+        image_in_imag = np.ascontiguousarray(image_in.imag, dtype = np.double)
 
         image_out_real = np.empty((ydim,xdim), dtype = np.double)
         image_out_imag = np.empty((ydim,xdim), dtype = np.double)
@@ -131,7 +131,7 @@ def prop_cubic_conv(image_in, xval, yval, THREADED = True, GRID = True):
         del(image_in_real, image_in_imag)
     else:
         # Cast input arrays as double
-        image_in = np.asarray(image_in).astype(np.double)
+        image_in = np.ascontiguousarray(image_in, dtype = np.double)
         image_out = np.zeros((ydim,xdim), dtype = np.double)
 
         # Interplolate the input array
diff --git a/falco/proper/prop_dm.py b/falco/proper/prop_dm.py
index 5df7082..54daa9a 100644
--- a/falco/proper/prop_dm.py
+++ b/falco/proper/prop_dm.py
@@ -178,7 +178,7 @@ def prop_dm(wf, dm_z0, dm_xc, dm_yc, spacing = 0., **kwargs):
         x = (np.arange(5, dtype = np.float64) - 2) * dx_dm
 
         if proper.use_cubic_conv:
-            inf_kernel = proper.prop_cubic_conv(inf.T, x/dx_inf+xc_inf, x/dx_inf+yc_inf, GRID=True)
+            inf_kernel = proper.prop_cubic_conv(inf, x/dx_inf+xc_inf, x/dx_inf+yc_inf, GRID=True)
         else:
             xygrid = np.meshgrid(x/dx_inf+xc_inf, x/dx_inf+yc_inf)
             inf_kernel = map_coordinates(inf.T, xygrid, order = 3, mode = "nearest")
@@ -250,7 +250,7 @@ def prop_dm(wf, dm_z0, dm_xc, dm_yc, spacing = 0., **kwargs):
     ydm = (ys + dm_yc * dx_dm) / dx_inf + yoff_grid
 
     if proper.use_cubic_conv:
-        grid = proper.prop_cubic_conv(dm_grid.T, xdm, ydm, GRID = False)
+        grid = proper.prop_cubic_conv(dm_grid, xdm, ydm, GRID = False)
         grid = grid.reshape([xdm.shape[1], xdm.shape[0]])
     else:
         grid = map_coordinates(dm_grid.T, [xdm, ydm], order = 3, mode = "nearest", prefilter = True)
diff --git a/falco/proper/prop_resamplemap.py b/falco/proper/prop_resamplemap.py
index b95c982..80b338d 100644
--- a/falco/proper/prop_resamplemap.py
+++ b/falco/proper/prop_resamplemap.py
@@ -66,7 +66,7 @@ def prop_resamplemap(wf, dmap, pixscale, xc, yc, xshift = 0., yshift = 0.):
     y += yc - yshift/pixscale
 
     if proper.use_cubic_conv:
-        dmap = proper.prop_cubic_conv(dmap.T, x, y, GRID=True)
+        dmap = proper.prop_cubic_conv(dmap, x, y, GRID=True)
     else:
         xygrid = np.meshgrid(x,y)        
         dmap = map_coordinates(dmap.T, xygrid, order = 3, mode = "nearest")
-- 
2.43.0


From dfcf438a62389ee3d7b70d051222366c5276558e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:10 +0000
Subject: [PATCH 92/97] fix: compiled prop_magnify does not depend on the
 memory layout of the image

---
 falco/proper/prop_magnify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/proper/prop_magnify.py b/falco/proper/prop_magnify.py
index ced80d9..d9b35a3 100644
--- a/falco/proper/prop_magnify.py
+++ b/falco/proper/prop_magnify.py
@@ -104,7 +104,7 @@ def prop_magnify(image_in, mag0, size_out0 = 0, **kwargs):
                 # real and imaginary part of the complex array are contiguous in memory.
                 # need to copy real and imaginary parts to double arrays to process
 
-                image_in_array = np.copy(image_in.real.astype(np.double))
+                image_in_array = np.array(image_in.real, dtype = np.double, order = "C")
                 image_out_array = np.zeros((size_out,size_out), dtype = np.double)
                 libszoom_c.prop_szoom_c(image_in_array.T.ctypes.data_as(ct.c_void_p),
                             ct.c_int(image_in_array.T.shape[0]),
@@ -123,7 +123,7 @@ def prop_magnify(image_in, mag0, size_out0 = 0, **kwargs):
 
                 del( image_in_array, image_out_array )
             else:
-                image_in = image_in.astype(np.double)
+                image_in = np.ascontiguousarray(image_in, dtype = np.double)
                 image_out = np.zeros([size_out, size_out], dtype = np.double)
                 libszoom_c.prop_szoom_c(image_in.T.ctypes.data_as(ct.c_void_p),
                             ct.c_int(image_in.T.shape[0]),
-- 
2.43.0


From d11f2b4070d843c3427fd898013de6989143e1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:42 +0000
Subject: [PATCH 93/97] fix: HLC masks are generated with the annular mask
 function that exists

---
 falco/hlc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/falco/hlc.py b/falco/hlc.py
index 08be1de..0789e1e 100644
--- a/falco/hlc.py
+++ b/falco/hlc.py
@@ -524,13 +524,13 @@ def setup_fpm_cosine(mp):
     FPMgenInputs['rhoOuter'] = np.inf  # radius of outer opaque FPM ring (in lambda_c/D)
     FPMgenInputs['FPMampFac'] = 0  # amplitude transmission of inner FPM spot
     FPMgenInputs['centering'] = mp.centering
-    diskFull = np.round(pad_crop(1-falco.mask.gen_annular_FPM(FPMgenInputs),
+    diskFull = np.round(pad_crop(1-falco.mask.gen_annular_fpm(FPMgenInputs),
                                  mp.dm8.NdmPad))
     mp.dm8.inf_datacube = np.zeros((diskFull.shape[0], diskFull.shape[1], 1))
     mp.dm8.inf_datacube[:, :, 0] = diskFull
     # Make or read in DM8 disk for the compact model
     FPMgenInputs['pixresFPM'] = mp.F3.compact.res  # pixels per lambda_c/D
-    diskCompact = np.round(pad_crop(1-falco.mask.gen_annular_FPM(FPMgenInputs),
+    diskCompact = np.round(pad_crop(1-falco.mask.gen_annular_fpm(FPMgenInputs),
                                     mp.dm8.compact.NdmPad))
     mp.dm8.compact.inf_datacube = np.zeros((diskCompact.shape[0],
                                             diskCompact.shape[1], 1))
@@ -678,13 +678,13 @@ def setup_fpm(mp):
     FPMgenInputs['rhoOuter'] = np.inf  # radius of outer opaque FPM ring (in lambda_c/D)
     FPMgenInputs['FPMampFac'] = 0  # amplitude transmission of inner FPM spot
     FPMgenInputs['centering'] = mp.centering
-    diskFull = np.round(pad_crop(1-falco.mask.gen_annular_FPM(FPMgenInputs),
+    diskFull = np.round(pad_crop(1-falco.mask.gen_annular_fpm(FPMgenInputs),
                                  mp.dm8.NdmPad))
     mp.dm8.inf_datacube = np.zeros((diskFull.shape[0], diskFull.shape[1], 1))
     mp.dm8.inf_datacube[:, :, 0] = diskFull
     # Make or read in DM8 disk for the compact model
     FPMgenInputs['pixresFPM'] = mp.F3.compact.res  # pixels per lambda_c/D
-    diskCompact = np.round(pad_crop(1-falco.mask.gen_annular_FPM(FPMgenInputs),
+    diskCompact = np.round(pad_crop(1-falco.mask.gen_annular_fpm(FPMgenInputs),
                                     mp.dm8.compact.NdmPad))
     mp.dm8.compact.inf_datacube = np.zeros((diskCompact.shape[0],
                                             diskCompact.shape[1], 1))
-- 
2.43.0


From 71e9fa0e3f9ccdecddf36ce7a01738f93fad0369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:42 +0000
Subject: [PATCH 94/97] fix: HLC mask from the look-up table uses the
 wavelength it is asked for

---
 falco/hlc.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/falco/hlc.py b/falco/hlc.py
index 0789e1e..229b182 100644
--- a/falco/hlc.py
+++ b/falco/hlc.py
@@ -43,10 +43,14 @@ def gen_fpm_from_LUT(mp, si, wi, modelType):
         # Index of the wavelength in mp.sbp_centers
         ilam = si
     elif modelType.lower() == 'full':
-        # size = (Ndiel,Nmetal,mp.Nsbp*mp.Nwpsbp)
+        # One page per wavelength in mp.full.lambdas. Neighboring sub-bands
+        # share the wavelength at their common edge.
         complexTransCube = mp.complexTransFull
-        # Index of the wavelength in mp.lam_array
-        ilam = (si-1)*mp.Nwpsbp + wi
+        # Index of the wavelength in mp.full.lambdas
+        if mp.Nwpsbp > 1:
+            ilam = si*(mp.Nwpsbp-1) + wi
+        else:
+            ilam = si
     else:
         raise ValueError('modelType must specify full or compact model.')
 
-- 
2.43.0


From eb81c4dbe16756301836ed2056c0b384d9b7b699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:42 +0000
Subject: [PATCH 95/97] fix: fused silica is accepted under its full name

---
 falco/thinfilm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/thinfilm.py b/falco/thinfilm.py
index d0d0cfd..955d3ac 100644
--- a/falco/thinfilm.py
+++ b/falco/thinfilm.py
@@ -165,7 +165,7 @@ def calc_complex_trans_matrix(substrate, metal, dielectric, lam, aoi, t_Ti,
     # Define Material Properties
     # ---------------------------------------------
     # Substrate properties
-    if substrate.upper() in ('FS', 'FUSEDSILICA, FUSED_SILICA'):
+    if substrate.upper() in ('FS', 'FUSEDSILICA', 'FUSED_SILICA'):
         A1 = 0.68374049400
         A2 = 0.42032361300
         A3 = 0.58502748000
-- 
2.43.0


From a7fb05017bb4eb281bf09c8664b502aec2d883f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:42 +0000
Subject: [PATCH 96/97] fix: mean thin-film reflection of both polarizations
 does not cancel

---
 falco/thinfilm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/falco/thinfilm.py b/falco/thinfilm.py
index 955d3ac..ffafea5 100644
--- a/falco/thinfilm.py
+++ b/falco/thinfilm.py
@@ -317,7 +317,9 @@ def calc_complex_trans_matrix(substrate, metal, dielectric, lam, aoi, t_Ti,
                                                     lam, False)
                 [dummy1, dummy2, rr1, tt1] = solver(nvec, dvec, theta,
                                                     lam, True)
-                rr = (rr0+rr1)/2.
+                # rr1 is that of the magnetic field, whose reflection has the
+                # opposite sign (rr1 = -rr0 at normal incidence).
+                rr = (rr0-rr1)/2.
                 tt = (tt0+tt1)/2.
             elif(pol == 0 or pol == 1):
                 [dumm1, dummy2, rr, tt] = solver(nvec, dvec, theta, lam,
-- 
2.43.0


From 919c23a9c78fb901dfd9f51be2107fe5af1582ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:42 +0000
Subject: [PATCH 97/97] fix: thin-film table on disk is not taken for one of
 other parameters

---
 falco/thinfilm.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/falco/thinfilm.py b/falco/thinfilm.py
index ffafea5..b10ad91 100644
--- a/falco/thinfilm.py
+++ b/falco/thinfilm.py
@@ -1,4 +1,5 @@
 """Module for thin film functions to make complex-valued HLC occulters."""
+import hashlib
 import numpy as np
 from os.path import isfile
 import os
@@ -464,6 +465,17 @@ def gen_complex_trans_table(mp, flagRefl=False):
          mp.aoi))
     fn_cube_full = os.path.join(localpath, 'data', 'material', fn_full)
 
+    # The names above are rounded. Tell apart files for any other parameters.
+    def add_key(fn, lambdas):
+        key = hashlib.md5()
+        for val in (lambdas, mp.F3.d0fac, mp.aoi, mp.t_Ti_nm,
+                    mp.t_metal_nm_vec, mp.t_diel_nm_vec):
+            key.update(np.asarray(val, dtype=float).tobytes())
+        return fn[0:-4] + '_' + key.hexdigest() + '.npy'
+
+    fn_cube_compact = add_key(fn_cube_compact, mp.sbp_centers)
+    fn_cube_full = add_key(fn_cube_full, mp.full.lambdas)
+
     if flagRefl:
         fn_cube_compact = fn_cube_compact[0:-4] + '_refl.npy'
         fn_cube_full = fn_cube_full[0:-4] + '_refl.npy'
-- 
2.43.0

