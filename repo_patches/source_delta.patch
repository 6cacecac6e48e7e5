From c0daa1eacdf4f6a8af5cce41e7b1a409f80d16f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:19 +0000
Subject: [PATCH 01/42] fix: det3D subtracts the a1z*a2y*a3x product

---
 pythonbmp/mathlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/mathlib.py b/pythonbmp/mathlib.py
index a913326..79939a9 100644
--- a/pythonbmp/mathlib.py
+++ b/pythonbmp/mathlib.py
@@ -781,7 +781,7 @@ def det3D(
            a1[2] * a2[0] * a3[1] - \
            a1[0] * a2[2] * a3[1] - \
            a1[1] * a2[0] * a3[2] - \
-           a1[2] * a2[1] * a2[0]
+           a1[2] * a2[1] * a3[0]
 
 
 def cosaffin(u: list[Number],
-- 
2.43.0


From 1a97ecbdac8fbd46f01e12ea18841734a3456a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:19 +0000
Subject: [PATCH 02/42] fix: channel splitting keeps the last pixel of odd
 length buffers

---
 pythonbmp/buffersplit.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pythonbmp/buffersplit.py b/pythonbmp/buffersplit.py
index 874ca8e..8595c3f 100644
--- a/pythonbmp/buffersplit.py
+++ b/pythonbmp/buffersplit.py
@@ -48,8 +48,6 @@ def altsplitbuf3way(buf: list[any]
          [blue list]]
     """
     m = len(buf)
-    if m % 3 == 0:
-        m -= m & 1
     return [buf[:m - 2:3], buf[1: m - 1: 3], buf[2: m: 3]]
 
 
@@ -71,8 +69,6 @@ def altsplitbufnway(buf: list[any],
     retval = []
     m = len(buf)
     j = n - 1
-    if m % n == 0:
-        m -= m & 1
     for i in range(n):
         retval += [buf[i: m - j: n]]
         j -= 1
-- 
2.43.0


From 34a4b9050876a3b59ba40f3b08962c7661fd2259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:19 +0000
Subject: [PATCH 03/42] fix: buf2int reads every byte of the buffer

---
 pythonbmp/inttools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/inttools.py b/pythonbmp/inttools.py
index 8450315..3018998 100644
--- a/pythonbmp/inttools.py
+++ b/pythonbmp/inttools.py
@@ -88,5 +88,5 @@ def buf2int(buf: array) -> int:
     Returns:
         unsigned int value
     """
-    j = len(buf) - 1
+    j = len(buf)
     return sum(buf[i] << (i << 3) for i in range(j))
-- 
2.43.0


From e55bd24da62f07a92c92a2a54fd572adb2b51ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:19 +0000
Subject: [PATCH 04/42] fix: copyrect records the extents pasterect and
 convertselection2BMP expect

---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 658581c..a8d644e 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7707,8 +7707,8 @@ def copyrect(bmp: array,
     retval = array('B', [bmp[bmpcolorbits]])
     x1, y1, x2, y2 = \
        sortrecpoints(x1, y1, x2, y2)
-    retval += int2buf(2, x2 - x1 + 2)
-    retval += int2buf(2, y2 - y1 + 1)
+    retval += int2buf(2, x2 - x1)
+    retval += int2buf(2, y2 - y1)
     retval += int2buf(2,
                 adjustxbufsize(bmp, x1, x2))
     for buf in itercopyrect(
-- 
2.43.0


From c05b16be4bacbb182053585e072f90d333115aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:04 +0000
Subject: [PATCH 05/42] fix: packbitlisttobuf puts the first bit of each byte
 in the highest place

---
 pythonbmp/bufresize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/bufresize.py b/pythonbmp/bufresize.py
index 9866df0..ab79a19 100644
--- a/pythonbmp/bufresize.py
+++ b/pythonbmp/bufresize.py
@@ -94,7 +94,7 @@ def packbitlisttobuf(blist: list[int]
     b = 0
     while i < j:
         m = i % 8
-        b += blist[i - 1] << (7 - m)
+        b += blist[i - 1] << ((8 - m) & 7)
         if m == 0 and i > 1:
             retval += [b]
             b = 0
-- 
2.43.0


From 4a60eb5cff10685dd54eb0bb4b3efe398128d5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:26 +0000
Subject: [PATCH 06/42] fix: listinrecbnd and listinBMPrecbnd report points out
 of bounds

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index a8d644e..1453326 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -499,7 +499,7 @@ def listinBMPrecbnd(bmp: array,
     for (x, y) in xylist:
         if isinBMPrectbnd(
             bmp, x, y) == False:
-            break
+            return False
     return True
 
 
-- 
2.43.0


From 432b9461df928b13196356369a0c626069908780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:26 +0000
Subject: [PATCH 07/42] fix: listinrecbnd reports points out of bounds

---
 pythonbmp/primitives2D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 5df504a..4025e6a 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -818,7 +818,7 @@ def listinrecbnd(
                        xmin, ymin,
                        xmax, ymax) == \
             False:
-            break
+            return False
     return True
 
 
-- 
2.43.0


From 7266cd15820b9998ab3bf1d335841b52966eaefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:26 +0000
Subject: [PATCH 08/42] fix: entirecircleinboundary compares y with the height
 of the bitmap

---
 pythonbmp/paramchecks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/paramchecks.py b/pythonbmp/paramchecks.py
index 035e0a4..18d8adc 100644
--- a/pythonbmp/paramchecks.py
+++ b/pythonbmp/paramchecks.py
@@ -352,7 +352,7 @@ def entirecircleinboundary(func):
                            and type(r) == int:
             if entirecircleisinboundary(
                     x, y, -1, readint(bmpx, 4, bmp),
-                          -1, readint(bmpx, 4, bmp), r):
+                          -1, readint(bmpy, 4, bmp), r):
                 return(func(*args, **kwargs))
             else:
                 print(sysmsg['regionoutofbounds'])
-- 
2.43.0


From 19aa86766a446561a75001862ab9ce9a762bcbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:26 +0000
Subject: [PATCH 09/42] fix: regular polygons have as many vertices as sides

---
 pythonbmp/primitives2D.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 4025e6a..ee306ad 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -500,11 +500,9 @@ def floatregpolygonvert(
     """
     v = []
     angle = radians(angle)
-    anginc = 360 // sides
-    maxang = 360
     q = complex(cx, cy)
-    for a in range(0, maxang, anginc):
-        ang = angle + radians(a)
+    for i in range(sides):
+        ang = angle + radians(i * 360 / sides)
         z = q - r * complex(sin(ang), cos(ang))
         v.append([z.real, z.imag])
     return v
-- 
2.43.0


From dda37dffd21b7ce1384f273741910d14409074f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:26 +0000
Subject: [PATCH 10/42] fix: the pole added by spherevert is relative to the
 center

---
 pythonbmp/solids3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index 2bfbe2a..89a2e39 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -480,7 +480,7 @@ def spherevert(vcen: list[float,
                            radians(phi)]))
             if p not in plist:
                 plist.append(p)
-    p = [0, 0, -r]
+    p = addvect(vcen, [0, 0, -r])
     if p not in plist:
         plist.append(p)
     return plist
-- 
2.43.0


From 1b9c24cd7951a76a5e429036aa9424aed4ffe9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:26 +0000
Subject: [PATCH 11/42] fix: surfplot3Dvertandsurface counts the points of a
 row when step does not divide it

---
 pythonbmp/solids3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index 89a2e39..0e07b12 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -705,7 +705,7 @@ def surfplot3Dvertandsurface(
         for x in range(x1, x2, step):
             z = fnxy(x, y)
             vlist.append([x, y, z])
-    dx = abs(x2 - x1) // step
+    dx = len(range(x1, x2, step))
     dx1 = dx - 1
     vl = len(vlist)
     for v in vlist:
-- 
2.43.0


From 3c26821238afdbbc5248ea491eb31741513835dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:26 +0000
Subject: [PATCH 12/42] fix: rectangular to cylindrical conversion uses the
 distance from the axis

---
 pythonbmp/mathlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/mathlib.py b/pythonbmp/mathlib.py
index 79939a9..70a3921 100644
--- a/pythonbmp/mathlib.py
+++ b/pythonbmp/mathlib.py
@@ -938,7 +938,7 @@ def rect2cylindricalcoord3D(
              angle: float,
              z: Number]
     """
-    return [vmag(v),
+    return [vmag(v[0:2]),
             atan(v[1] / v[0]),
             v[2]]
 
-- 
2.43.0


From fcef48c213b44385f84e99f9fffde05b2e1b916f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:26 +0000
Subject: [PATCH 13/42] fix: conversions to polar, spherical and cylindrical
 coordinates keep the quadrant

---
 pythonbmp/mathlib.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/mathlib.py b/pythonbmp/mathlib.py
index 70a3921..cb97f5f 100644
--- a/pythonbmp/mathlib.py
+++ b/pythonbmp/mathlib.py
@@ -20,6 +20,7 @@ from math import(
     asin,
     acos,
     atan,
+    atan2,
     cos,
     cosh,
     degrees,
@@ -886,7 +887,7 @@ def rect2sphericalcoord3D(
         phi: float]
     """
     p = vmag(v)
-    return [p, atan(v[1] / v[0]),
+    return [p, atan2(v[1], v[0]),
                acos(v[2] / p)]
 
 
@@ -939,7 +940,7 @@ def rect2cylindricalcoord3D(
              z: Number]
     """
     return [vmag(v[0:2]),
-            atan(v[1] / v[0]),
+            atan2(v[1], v[0]),
             v[2]]
 
 
@@ -998,7 +999,7 @@ def rect2polarcoord2D(
     Returns:
         [magnitude: float, angle: float]
     """
-    return [vmag(v), atan(v[1] / v[0])]
+    return [vmag(v), atan2(v[1], v[0])]
 
 
 def polarcoordangle2D(v:list) -> float:
-- 
2.43.0


From dda78a4997715df01101fdbb13d77ad6a69cf21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:26 +0000
Subject: [PATCH 14/42] fix: applycolorfiltertoBGRbuf keeps bytes in range

---
 pythonbmp/colors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/colors.py b/pythonbmp/colors.py
index c2fd5aa..8d8bbb3 100644
--- a/pythonbmp/colors.py
+++ b/pythonbmp/colors.py
@@ -795,9 +795,9 @@ def applycolorfiltertoBGRbuf(
     m = len(buf) - 1
     (r, g, b) = rgbfactors
     buf[0 : m - 2 : 3], buf[1 : m - 1 : 3], buf[2: m: 3] = (
-    array('B', intscalarmulvect(buf[  : m - 2 : 3], b)),
-    array('B', intscalarmulvect(buf[1 : m - 1 : 3], g)),
-    array('B', intscalarmulvect(buf[2 : m     : 3], r)),
+    array('B', setminmaxvec(intscalarmulvect(buf[  : m - 2 : 3], b), 0, 255)),
+    array('B', setminmaxvec(intscalarmulvect(buf[1 : m - 1 : 3], g), 0, 255)),
+    array('B', setminmaxvec(intscalarmulvect(buf[2 : m     : 3], r), 0, 255)),
     )
 
 
-- 
2.43.0


From 6d3c16a1fdff7cf3da891b0f23bc63e17234ce38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:26 +0000
Subject: [PATCH 15/42] fix: brightness gradients accept regions one pixel wide
 or high

---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 1453326..e2db51b 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12362,7 +12362,7 @@ def verticalbrightnessgradto24bitregion(
     offset = _24bmof(bmp, x1, y2)
     r = _xchrcnt(bmp)
     lum = lumrange[1]
-    dlum = (lumrange[0] - lum) / (y2 - y1)
+    dlum = (lumrange[0] - lum) / max(y2 - y1, 1)
     for buf in itercopyrect(bmp, x1, y1, x2, y2):
         BMPbitBLTput(bmp, offset,
              applybrightnessadjtoBGRbuf(buf, lum))
@@ -12399,7 +12399,7 @@ def horizontalbrightnessgradto24bitregion(
     xlim = x2 + 1
     f =  applybrightnessadjtoBGRbuf
     l = lumrange[0]
-    dl = delta(lumrange) / (x2 - x1)
+    dl = delta(lumrange) / max(x2 - x1, 1)
     for x in range(x1, xlim):
         s = c(bmp, x, y2)
         e = c(bmp, x, y1)
-- 
2.43.0


From 42f56ada77c9dccb2dda528ac1de25a27af83796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:26 +0000
Subject: [PATCH 16/42] fix: pastecirularbuf reports a bit depth mismatch

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index e2db51b..cfa9395 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2635,7 +2635,7 @@ def pastecirularbuf(bmp: array,
                     bmp[c(bmp, x1, y2): c(bmp, x2, y2)] = \
                         circbuf[i][1]
             else:
-                raise(sysmsg['bitsnotequal'])
+                print(sysmsg['bitsnotequal'])
         else:
             print(sysmsg['regionoutofbounds'])
 
-- 
2.43.0


From 0532e8a835bc05f98e18f9a5fbec631cd02d7a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:27 +0000
Subject: [PATCH 17/42] fix: circular region functions without parameters work
 across the edge of the bitmap

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index cfa9395..f05b20a 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2503,7 +2503,7 @@ def _usenopar24btfn2circreg(bmp: array,
             x1 = setmin(x1, 0)
             x2 = setmax(x2, xmax - 1)
             if isinrange(y2, ymax, -1):
-                s2 = c(bmp, x1 ,y2),
+                s2 = c(bmp, x1, y2)
                 e2 = c(bmp, x2, y2)
                 bmp[s2: e2] = func(bmp[s2: e2])
             if isinrange(y1, ymax, -1) and y2 != y1:
-- 
2.43.0


From fc5e0bc7ee2386e2229ad0e98f01fa4112b8fe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:27 +0000
Subject: [PATCH 18/42] fix: itergetneighbors yields neighbors in the first row
 and column

---
 pythonbmp/primitives2D.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index ee306ad..6629caa 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -666,20 +666,20 @@ def itergetneighbors(v: list[int, int],
         ty = y - 1
         rx = x + 1
         by = y + 1
-        if ty > 0:
+        if ty > -1:
             yield [x, ty]
         if includecenter:
             yield(v)
         if by < my:
             yield [x, by]
-        if lx > 0:
-            if ty > 0:
+        if lx > -1:
+            if ty > -1:
                 yield [lx, ty]
             yield [lx, y]
             if by < my:
                 yield [lx, by]
         if rx < mx:
-            if ty > 0:
+            if ty > -1:
                 yield [rx, ty]
             yield [rx, y]
             if by < my:
-- 
2.43.0


From 67d1dbee446ee0dd07830a2cb1ba5815f4d76d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:27 +0000
Subject: [PATCH 19/42] fix: iterimageRGB starts a new row after the last byte
 of a row

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index f05b20a..7ee7d1f 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7611,7 +7611,7 @@ def iterimageRGB(bmp: array,
                                 b[offset + 1],
                                 b[offset]))
             x += 1
-        if x == mx:
+        if x >= mx:
             x = 0
             y -= 1
             offset += padbytes
-- 
2.43.0


From 5290cda03e74bb7f620083d8074c2c37f0b6209b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:27 +0000
Subject: [PATCH 20/42] fix: erasing every nth line includes the last line

---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 7ee7d1f..d83105d 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7830,7 +7830,7 @@ def erasealternatehorizontallines(
     bytepat &= 0xff
     blank = array('B', [bytepat] * bufsize)
     i = 1
-    while s2 > s1:
+    while s2 >= s1:
         if i % int_eraseeverynline == \
                int_eraseNthline:
             bmp[s2: s2 + bufsize] = blank
@@ -7974,7 +7974,7 @@ def erasealternatehorizontallinesinregion(
     s2 = f(bmp, x1, y1)
     blank = array('B', [bytepat] * bufsize)
     i = 1
-    while s2 > s1:
+    while s2 >= s1:
         if i % int_eraseeverynline == \
                int_eraseNthline:
             bmp[s2: s2 + bufsize] = blank
-- 
2.43.0


From 2bc809577efc2cb166d9c166a1e5b0570125adc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:27 +0000
Subject: [PATCH 21/42] fix: pixel based flips accept corners in any order

---
 pythonbmp/BITMAPlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index d83105d..fcbf141 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -8231,6 +8231,7 @@ def fliphorzontalpixelbased(
         unsigned byte array
 
     """
+    x1, y1, x2, y2 = sortrecpoints(x1, y1, x2, y2)
     m = x1 + ((x2 - x1) >> 1)
     while x1 <= m:
         y = y1
@@ -8262,6 +8263,7 @@ def fliphverticalalpixelbased(
         byref modified
         unsigned byte array
     """
+    x1, y1, x2, y2 = sortrecpoints(x1, y1, x2, y2)
     m = y1 + ((y2 - y1) >> 1)
     while y1 <= m:
         x = x1
-- 
2.43.0


From 781c3d324f9cf4b3a21133fd508f13940d9d189b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:28 +0000
Subject: [PATCH 22/42] fix: plotbmpastext prints every row

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index fcbf141..7a39158 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12196,7 +12196,7 @@ def plotbmpastext(bmp: array):
     my = getmaxy(bmp) - 1
     r = _xchrcnt(bmp)
     offset = _hdsz(bmp)
-    for y in range(my, 0, -1):
+    for y in range(my, -1, -1):
         for x in range(r):
             i = offset + r * y + x
             if bits == 1:
-- 
2.43.0


From 41ffda1ffdab6d7511b8b632d5b7bcdaad5e5073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:28 +0000
Subject: [PATCH 23/42] fix: the ascending middle luminosity range is named
 midasc

---
 pythonbmp/colors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/colors.py b/pythonbmp/colors.py
index 8d8bbb3..07d2d22 100644
--- a/pythonbmp/colors.py
+++ b/pythonbmp/colors.py
@@ -51,7 +51,7 @@ def getdefaultlumrange() -> dict:
     return {'maxdesc': [255, 0],
              'maxasc': [0, 255],
             'middesc': [192, 64],
-            ' midasc': [64, 192],
+            'midasc': [64, 192],
           'upperdesc': [255, 128],
            'upperasc': [128, 255],
           'lowerdesc': [128, 0],
-- 
2.43.0


From befe100bc573e1bd8584afca7a9d9f3fe264ea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:48 +0000
Subject: [PATCH 24/42] fix: plot8bitpatternsidewaywithfn changes colors once
 per row of the pattern

---
 pythonbmp/BITMAPlib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 7a39158..3d82fea 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -4877,11 +4877,11 @@ def plot8bitpatternsidewaywithfn(
                         fn(bmp, x, y, inc, cl)
                 mask >>= 1
                 y -= scale
-                colorind += 1
-                if colorcnt == colorind:
-                    colorind = 0
             x += scale
             y = oy
+            colorind += 1
+            if colorcnt == colorind:
+                colorind = 0
 
 
 def plotitalic8bitpatternsidewaywithfn(
-- 
2.43.0


From 64bc2936c79077bc631eb1f9088a00764a23e272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:48 +0000
Subject: [PATCH 25/42] fix: plotstringupsidedownasdots draws the letters in
 reverse order

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 3d82fea..fb9c6c6 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -6179,7 +6179,7 @@ def plotstringupsidedownasdots(
     plotstringfunc(bmp, x, y, str2plot,
         scale, pixspace,
         spacebetweenchar, color,
-        fontbuf, enumletters,
+        fontbuf, enumreverseletters,
         plot8bitpatternupsidedownasdots)
 
 
-- 
2.43.0


From 7d56ddf770369bb45e3ec4fa4e5eb184537fc03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:48 +0000
Subject: [PATCH 26/42] fix: italic text drawn sideways slants the same way at
 scale 1

---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index fb9c6c6..f6ffd21 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -4926,7 +4926,7 @@ def plotitalic8bitpatternsidewaywithfn(
             x += scale
             y = oy + i
             if x % 2 == 0 and scale == 1:
-                y -= 1
+                y += 1
     elif type(color) == list or type(color) == tuple:
         colorcnt = len(color)
         colorind = 0
@@ -4948,7 +4948,7 @@ def plotitalic8bitpatternsidewaywithfn(
             if colorind == colorcnt:
                 colorind = 0
             if x % 2 == 0 and scale == 1:
-                y -= 1
+                y += 1
 
 def plot8bitpatternsideway(
         bmp: array, x: int, y: int,
-- 
2.43.0


From b79c178349b9bec9ec62ac7cf81a218f29cb0dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:49 +0000
Subject: [PATCH 27/42] fix: gradthickellipserot uses the given interpolation
 function

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index f6ffd21..d637fbd 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3708,7 +3708,7 @@ def gradthickellipserot(bmp: array,
     """
     (l1, l2) = lumrange
     for i in range(penradius, 0, -1):
-        c = colormix(int(lerp(l1, l2, i / penradius)),
+        c = colormix(int(fn(l1, l2, i / penradius)),
                 RGBfactors)
         if bmp[bmpcolorbits] != 24:
             c = matchRGBtopal(
-- 
2.43.0


From b17033b19e81a8d28661e63b7368e930d074b149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:49 +0000
Subject: [PATCH 28/42] fix: drawarc draws the outline only when asked to

---
 pythonbmp/BITMAPlib.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index d637fbd..d3fafe6 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3902,9 +3902,10 @@ def drawarc(bmp: array,
     """
     av = arcvert(x, y, r,
          startdegangle, enddegangle)
-    for p in av:
-        plotxybit(bmp, p[0], p[1],
-            color)
+    if showoutline:
+        for p in av:
+            plotxybit(bmp, p[0], p[1],
+                color)
     if isfilled:
         fillboundary(bmp,
             fillpolydata(av,
-- 
2.43.0


From af7fb89558b7995065d986faa7210a5fae5e758a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:49 +0000
Subject: [PATCH 29/42] fix: sphere2file and autocropimg2file report a missing
 source file

---
 pythonbmp/BITMAPlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index d3fafe6..7da994e 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -13603,6 +13603,7 @@ def _use24btclrfnwithpar2circreg(
             ExistingBMPfile, NewBMPfile))
 
 
+@checklink
 def _use24btclrfnwithmultpar2circreg(
         ExistingBMPfile: str,
         NewBMPfile: str,
@@ -14500,6 +14501,7 @@ def invertregion2file(
         x1, y1, x2, y2, invertregion)
 
 
+@checklink
 @functimer
 def autocropimg2file(
         ExistingBMPfile: str,
-- 
2.43.0


From 0e6b7de41580e6f29069db5210deb8c6b5fb4113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:19 +0000
Subject: [PATCH 30/42] fix: mspaint opens the file named on the command line

---
 mspaint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mspaint.py b/mspaint.py
index 38eb893..4c33b6e 100755
--- a/mspaint.py
+++ b/mspaint.py
@@ -75,7 +75,7 @@ def is_in_pytest():
     )
 
 
-file: Path = determine_file(argv)
+file: Path = determine_file(*argv)
 print(file)
 is_windows: bool = platform == "win32"
 is_android: bool
-- 
2.43.0


From 12532a887af721e5458e557d9d3e28b6738eb289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:19 +0000
Subject: [PATCH 31/42] fix: mspaint runs where the toolbox program is missing

---
 mspaint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mspaint.py b/mspaint.py
index 4c33b6e..c20eb23 100755
--- a/mspaint.py
+++ b/mspaint.py
@@ -86,7 +86,7 @@ try:
         ).strip()
         == "Android"
     )
-except (CalledProcessError, FileNotFoundException):
+except (CalledProcessError, FileNotFoundError):
     is_android = False
 if is_windows:
     print(
-- 
2.43.0


From 4f970f9b2b3f84eb46c185b901c1ba70869fa993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 32/42] fix: outlineregion accepts corners in any order

---
 pythonbmp/BITMAPlib.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 7da994e..fee19f1 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12591,6 +12591,7 @@ def _cmpimglines(bmp: array,
         x1: int, y1: int,
         x2: int, y2: int,
         func: Callable):
+    x1, y1, x2, y2 = sortrecpoints(x1, y1, x2, y2)
     offset = _BMoffset(bmp, x1, y2)
     r = _xchrcnt(bmp)
     oldbuf = []
-- 
2.43.0


From da65f60002c5f75796661aa61078220647ec224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 33/42] fix: X11 darkblue RGB factors were those of
 darkgoldenrod

---
 pythonbmp/X11colordict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/X11colordict.py b/pythonbmp/X11colordict.py
index c68dbfd..50dd631 100644
--- a/pythonbmp/X11colordict.py
+++ b/pythonbmp/X11colordict.py
@@ -1484,7 +1484,7 @@ def getX11RGBfactors() -> dict:
 'darkslategrey': [0.184314, 0.309804, 0.309804],
 'darkturquoise': [0.000000, 0.807843, 0.819608],
 'darkviolet': [0.580392, 0.000000, 0.827451],
-'darkblue': [0.721569, 0.525490, 0.043137],
+'darkblue': [0.000000, 0.000000, 0.545098],
 'darkgoldenrod1': [1.000000, 0.725490, 0.058824],
 'darkgoldenrod2': [0.933333, 0.678431, 0.054902],
 'darkgoldenrod3': [0.803922, 0.584314, 0.047059],
-- 
2.43.0


From 00a0f8a18ba26b2acbdd7e601337bf9fffd0a48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 34/42] fix: X11 aqua HSL matches its RGB value

---
 pythonbmp/X11colordict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/X11colordict.py b/pythonbmp/X11colordict.py
index 50dd631..2139f25 100644
--- a/pythonbmp/X11colordict.py
+++ b/pythonbmp/X11colordict.py
@@ -7,7 +7,7 @@ def getX11colorname2HSLdict() -> dict:
 'antiquewhite2': (33, 100, 93),
 'antiquewhite3': (34, 50, 87),
 'antiquewhite4': (33, 22, 75),
-'aqua': (171, 85, 50),
+'aqua': (180, 100, 50),
 'aquamarine': (180, 100, 50),
 'aquamarine1': (160, 100, 75),
 'aquamarine2': (160, 100, 75),
-- 
2.43.0


From a18d9e59f8995f4764c2f942dff216f804a91014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 35/42] fix: isorthogonal tests the inner product

---
 pythonbmp/mathlib.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pythonbmp/mathlib.py b/pythonbmp/mathlib.py
index cb97f5f..0f7e81d 100644
--- a/pythonbmp/mathlib.py
+++ b/pythonbmp/mathlib.py
@@ -622,19 +622,14 @@ def isorthogonal(
     Returns:
         True  : vectors are orthogonal
                 since the inner product
-                of u and v is a
-                zero vector or a
-                null vector that
-                has a zero magnitude
-                and no direction
+                of u and v is zero
 
         False : inner product of
-                u and v is a
-                non zero vector
+                u and v is not zero
                 so they are
                 nonorthogonal vectors
     """
-    return vectiszero(mulvect(u, v))
+    return dotprod(u, v) == 0
 
 
 def crossprod3d(
-- 
2.43.0


From cb9c410a6645060b14f33893a922bf80374a4a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 36/42] fix: cropping an 8-bit image keeps its palette

---
 pythonbmp/BITMAPlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index fee19f1..719ca8e 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -8747,8 +8747,9 @@ def crop(bmp: array, x1: int, y1: int,
     bits = bmp[bmpcolorbits]
     nbmp = newBMP(x2 - x1 + 1,
                   y2 - y1 + 1, bits)
-    if bits < 8:
+    if bits < 24:
         copyRGBpal(bmp, nbmp)
+    if bits < 8:
         for v in itergetcolorfromrectregion(
                     bmp, x1, y1, x2, y2):
             intplotvecxypoint(nbmp,
-- 
2.43.0


From 03840e3289d0caeb1a4916745be5ee7782384d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 37/42] fix: row buffers of 1 and 4-bit images include the last
 partial byte

---
 pythonbmp/BITMAPlib.py | 9 +++++----
 pythonbmp/bufresize.py | 6 +++++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 719ca8e..b2ab8e2 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2298,8 +2298,8 @@ def itercopyrect(bmp: array,
     bufsize = adjustxbufsize(bmp, x1, x2)
     r = _xchrcnt(bmp)
     offset = _BMoffset(bmp, x1, y2)
-    lim = _BMoffset(bmp, x2, y1) + r
-    while (offset + bufsize) <= lim:
+    lim = _BMoffset(bmp, x1, y1)
+    while offset <= lim:
         yield BMPbitBLTget(bmp,
                offset, bufsize)
         offset += r
@@ -7543,11 +7543,12 @@ def upgradeto24bitimage(bmp: array):
         my = getmaxy(bmp) - 1
         offset = _BMoffset(nbmp, 0, my)
         r = _xchrcnt(nbmp)
+        w = (mx + 1) * 3
         for buf in itercopyrect(bmp,
                         0, 0, mx, my):
             BMPbitBLTput(nbmp, offset,
                 convertbufto24bit(buf,
-                    bgrpal, bits))
+                    bgrpal, bits)[: w])
             offset += r
     return nbmp
 
@@ -8895,7 +8896,7 @@ def resizeNtimesbigger(
     r = _xchrcnt(nbmp)
     for buf in itercopyrect(bmp, 0, 0,
                         mx, my):
-        nbuf = resizebufNtimesbigger(buf, n, bits)
+        nbuf = resizebufNtimesbigger(buf, n, bits)[: r]
         for _ in range(n):
             BMPbitBLTput(nbmp, offset, nbuf)
             offset += r
diff --git a/pythonbmp/bufresize.py b/pythonbmp/bufresize.py
index ab79a19..b9ebe1e 100644
--- a/pythonbmp/bufresize.py
+++ b/pythonbmp/bufresize.py
@@ -72,8 +72,12 @@ def adjustxbufsize(bmp: array,
     Returns:
         int adjusted buffer size
     """
+    bits = bmp[28]
+    if bits < 8:
+        n = 8 // bits
+        return x2 // n - x1 // n + 1
     return adjustbufsize(x2 - x1 + 1,
-                            bmp[28])
+                            bits)
 
 
 def packbitlisttobuf(blist: list[int]
-- 
2.43.0


From 3295cdb282114053ae55144f230846ff3b9379d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 38/42] fix: horizontal flips and mirrors of 1 and 4-bit images
 move pixels, not bytes

---
 pythonbmp/BITMAPlib.py | 85 ++++++++++++++++++++++++++----------------
 1 file changed, 52 insertions(+), 33 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index b2ab8e2..8610f9c 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -8330,6 +8330,11 @@ def fliphorizontalregion(bmp: array,
         byref modified
         unsigned byte array
     """
+    if bmp[bmpcolorbits] < 8:
+        fliphorzontalpixelbased(
+            bmp, x1, y1, x2, y2)
+        return
+
     def _24(bmp, s1, e1, s2, e2, r):
         bmp[s1: e1 - 2: r], bmp[s2: e2 - 2: r], bmp[s1 + 1: e1 - 1: r], bmp[s2 + 1: e2 - 1: r], bmp[s1 + 2: e1: r], bmp[s2 + 2: e2: r] = \
         bmp[s2: e2 - 2: r], bmp[s1: e1 - 2: r], bmp[s2 + 1: e2 - 1: r], bmp[s1 + 1: e1 - 1: r], bmp[s2 + 2: e2: r], bmp[s1 + 2: e1: r]
@@ -8338,21 +8343,45 @@ def fliphorizontalregion(bmp: array,
         bmp[s1: e1: r], bmp[s2: e2: r]= \
         bmp[s2: e2: r], bmp[s1: e1: r]
 
-    def _4(bmp, s1, e1, s2, e2, r):
-        bmp[s1: e1: r], bmp[s2: e2: r] = \
-         flipnibbleinbuf(bmp[s2: e2: r]),  flipnibbleinbuf(bmp[s1: e1: r])
-
-    def _1(bmp, s1, e1, s2, e2, r):
-        bmp[s1: e1: r], bmp[s2: e2: r] = \
-        rotatebitsinbuf(bmp[s2: e2: r]), rotatebitsinbuf(bmp[s1: e1: r])
-
     horizontalbulkswap(
         bmp,
         x1, y1, x2, y2,
         {24: _24,
-          8: _8,
-          4: _4,
-          1: _1}[bmp[bmpcolorbits]])
+          8: _8}[bmp[bmpcolorbits]])
+
+
+@entirerectinboundary
+def _mirrorhorizontalpixelbased(
+        bmp: array, x1: int, y1: int,
+                    x2: int, y2: int,
+        leftisource: bool):
+    """Mirrors the left or right half of
+        a rectangular area pixel by pixel
+
+    Args:
+        bmp           : unsigned
+                        byte array
+                        with bmp format
+        x1, y1, x2, y2: defines the
+                        rectangle
+        leftisource   : True  -> mirror
+                                 the left
+                        False -> mirror
+                                 the right
+
+    Returns:
+        byref modified
+        unsigned byte array
+    """
+    x1, y1, x2, y2 = \
+        sortrecpoints(x1, y1, x2, y2)
+    while x1 < x2:
+        s, d = swapif(x1, x2, not leftisource)
+        for y in range(y1, y2 + 1):
+            plotxybit(bmp, d, y,
+                getxybit(bmp, s, y))
+        x1 += 1
+        x2 -= 1
 
 
 def mirrorleftinregion(
@@ -8372,6 +8401,11 @@ def mirrorleftinregion(
         byref modified
         unsigned byte array
     """
+    if bmp[bmpcolorbits] < 8:
+        _mirrorhorizontalpixelbased(
+            bmp, x1, y1, x2, y2, True)
+        return
+
     def _24(bmp, s1, e1, s2, e2, r):
         bmp[s2: e2 - 2: r], bmp[s2 + 1: e2 - 1: r], bmp[s2 + 2: e2: r]= \
         bmp[s1: e1 - 2: r], bmp[s1 + 1: e1 - 1: r], bmp[s1 + 2: e1: r]
@@ -8379,20 +8413,10 @@ def mirrorleftinregion(
     def _8(bmp, s1, e1, s2, e2, r):
         bmp[s2: e2: r] = bmp[s1: e1: r]
 
-    def _4(bmp, s1, e1, s2, e2, r):
-        bmp[s2: e2: r] = \
-             flipnibbleinbuf(bmp[s1: e1: r])
-
-    def _1(bmp, s1, e1, s2, e2, r):
-        bmp[s2: e2: r] = \
-            rotatebitsinbuf(bmp[s1: e1: r])
-
     horizontalbulkswap(bmp,
         x1, y1, x2, y2,
         {24: _24,
-          8: _8,
-          4: _4,
-          1: _1}[bmp[bmpcolorbits]])
+          8: _8}[bmp[bmpcolorbits]])
 
 
 def mirrorrightinregion(
@@ -8412,6 +8436,11 @@ def mirrorrightinregion(
         byref modified
         unsigned byte array
     """
+    if bmp[bmpcolorbits] < 8:
+        _mirrorhorizontalpixelbased(
+            bmp, x1, y1, x2, y2, False)
+        return
+
     def _24(bmp, s1, e1, s2, e2, r):
         bmp[s1: e1 - 2: r], bmp[s1 + 1: e1 - 1: r], bmp[s1 + 2: e1: r]=\
         bmp[s2: e2 - 2: r], bmp[s2 + 1: e2 - 1: r], bmp[s2 + 2: e2: r]
@@ -8419,20 +8448,10 @@ def mirrorrightinregion(
     def _8(bmp, s1, e1, s2, e2, r):
         bmp[s1: e1: r] = bmp[s2: e2: r]
 
-    def _4(bmp, s1, e1, s2, e2, r):
-        bmp[s1: e1: r] = \
-             flipnibbleinbuf(bmp[s2: e2: r])
-
-    def _1(bmp, s1, e1, s2, e2, r):
-        bmp[s1: e1: r] = \
-            rotatebitsinbuf(bmp[s2: e2: r])
-
     horizontalbulkswap(
         bmp, x1, y1, x2, y2,
         {24: _24,
-          8: _8,
-          4: _4,
-          1: _1}[bmp[bmpcolorbits]])
+          8: _8}[bmp[bmpcolorbits]])
 
 
 def mirrorleft(bmp: array):
-- 
2.43.0


From 020e63adbbfb2cae9378382da9f8a1e166bb8044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:03 +0000
Subject: [PATCH 39/42] fix: exact diagonal lines begin at their first point
 and do not pass their last

---
 pythonbmp/primitives2D.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 6629caa..f04896c 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -175,7 +175,13 @@ def iterline(p1: list[int, int],
     dyabs = abs(dy)
     x = y = 0
     (px, py) = p1
-    if dxabs >= dyabs:
+    if dxabs == dyabs:
+        ilim = dxabs + 1
+        for _ in range(ilim):
+            yield([px, py])
+            px += sdx
+            py += sdy
+    elif dxabs > dyabs:
         ilim = dxabs + 1
         for _ in range(ilim):
             y += dyabs
-- 
2.43.0


From d260e085df0e3a231a4ad8cc253bb3eaccba50bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:19 +0000
Subject: [PATCH 40/42] fix: horizontal spans beside the image draw nothing
 instead of resizing it

---
 pythonbmp/BITMAPlib.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 8610f9c..46fb2ff 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2026,6 +2026,8 @@ def horiline(bmp: array, y: int,
         x1 = setmin(x1, 0)
         x2 = setmax(x2, mx - 1)
         dx = x2 - x1 + 1
+        if dx < 1:
+            return
         s = _BMoffsethd(bmp, x1, y)
         if bits == 24:
             e = s + (dx * 3)
@@ -3380,7 +3382,7 @@ def filledcircle(bmp: array,
                 y1, y2 = mirror(y, v1)
                 x1 = setmin(x1, 0)
                 x2 = setmax(x2, xmax)
-                dx = x2 - x1 + 1
+                dx = setmin(x2 - x1 + 1, 0)
                 rgb = int2RGBlist(color)
                 colorbuf = array('B', [rgb[2],
                                        rgb[1],
@@ -3398,7 +3400,7 @@ def filledcircle(bmp: array,
                 y1, y2 = mirror(y, v1)
                 x1 = setmin(x1, 0)
                 x2 = setmax(x2, xmax)
-                dx = x2 - x1 + 1
+                dx = setmin(x2 - x1 + 1, 0)
                 colorbuf = \
                     array('B', [color & 0xff] * dx)
                 if isinrange(y2, ymax, -1):
@@ -3750,7 +3752,7 @@ def filledellipse(bmp: array,
                 y1, y2 = mirror(y, v1)
                 x1 = setmin(x1, 0)
                 x2 = setmax(x2, mx - 1)
-                dx = x2 - x1 + 1
+                dx = setmin(x2 - x1 + 1, 0)
                 rgb = int2RGBlist(color)
                 colorbuf = \
                  array('B', [rgb[2],
@@ -3769,7 +3771,7 @@ def filledellipse(bmp: array,
                 y1, y2 = mirror(y, v1)
                 x1 = setmin(x1, 0)
                 x2 = setmax(x2, mx - 1)
-                dx = x2 - x1 + 1
+                dx = setmin(x2 - x1 + 1, 0)
                 colorbuf = \
                     array('B', [color & 0xff] * dx)
                 if isinrange(y2, my, -1):
-- 
2.43.0


From f702897e64af53c6a325c0ad697a2ace7501a082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:22 +0000
Subject: [PATCH 41/42] fix: the boundary check of ellipses took the axes the
 other way round than the drawing

---
 pythonbmp/primitives2D.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index f04896c..bf3f211 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -874,10 +874,10 @@ def entireellipseisinboundary(
         False -> Not all (x, y)
                  is in bounds
     """
-    return (isinrange(x - b, maxx, minx) and \
-            isinrange(x + b, maxx, minx)) and \
-           (isinrange(y - a, maxy, miny) and \
-            isinrange(y + a, maxy, miny))
+    return (isinrange(x - a, maxx, minx) and \
+            isinrange(x + a, maxx, minx)) and \
+           (isinrange(y - b, maxy, miny) and \
+            isinrange(y + b, maxy, miny))
 
 
 def ellipsevert(x: int, y: int,
-- 
2.43.0


From c2945a048afcebb137706e350491f40b2da59a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:31 +0000
Subject: [PATCH 42/42] fix: vertical lines above or below the image draw
 nothing instead of resizing it

---
 pythonbmp/BITMAPlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 46fb2ff..47d38c9 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2092,6 +2092,8 @@ def vertline(bmp: array, x: int,
             y1 = setmin(y1, 0)
             y2 = setmax(y2, my - 1)
             dy = y2 - y1 + 1
+            if dy < 1:
+                return
             rgb = int2RGBlist(color)
             s = c(bmp, x, y2)
             e = c(bmp, x, y1) + r
-- 
2.43.0

