From 2c711489b18d32d07a3b8b060ac99a8c51996bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:20 +0000
Subject: [PATCH 001/143] fix: expand_slice and slice_geometry follow python's
 slice clipping

Negative out-of-range slice bounds were not clipped (slice(-9,3) on a length 5
axis became -4:3) and empty slices gave a negative shape, so the geometry of
m[sel] disagreed with its data.
---
 pixell/enmap.py | 2 +-
 pixell/utils.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index c3767b7..4a89c96 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -277,7 +277,7 @@ def slice_geometry(shape, wcs, sel, nowrap=False):
 		wcs.wcs.crpix[j] /= s.step
 		wcs.wcs.cdelt[j] *= s.step
 		wcs.wcs.crpix[j] += 0.5
-		oshape[i] = (s.stop-s.start+s.step-np.sign(s.step))//s.step
+		oshape[i] = max((s.stop-s.start+s.step-np.sign(s.step))//s.step,0)
 	# Convert this is a bit cumbersome, but ensures we get a tuple of
 	# plain python ints instead of numpy.int64s
 	oshape = tuple([int(a) for a in oshape])
diff --git a/pixell/utils.py b/pixell/utils.py
index a647e0a..15d9a90 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2839,7 +2839,9 @@ def expand_slice(sel, n, nowrap=False):
 	step = sel.step or 1
 	def cycle(i,n):
 		if nowrap: return i
-		else: return min(i,n) if i >= 0 else n+i
+		# Clip out-of-range values the same way python does
+		lo, hi = (0,n) if step > 0 else (-1,n-1)
+		return min(i,hi) if i >= 0 else max(n+i,lo)
 	def default(a, val): return a if a is not None else val
 	if step == 0: raise ValueError("slice step cannot be zero")
 	if step > 0: return slice(cycle(default(sel.start,0),n),cycle(default(sel.stop,n),n),step)
-- 
2.43.0


From f498b58e6aea12724f1c830082352a0157e07280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:53 +0000
Subject: [PATCH 002/143] fix: sbox_intersect works with current numpy
 (np.object no longer exists)

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 15d9a90..39daa75 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1578,7 +1578,7 @@ def sbox_intersect(a,b,wrap=0):
 	ndim = a.shape[-2]
 	wrap = np.zeros(ndim,int)+wrap
 	# Loop over all combinations
-	res = np.empty((fa.shape[0],fb.shape[0]),dtype=np.object)
+	res = np.empty((fa.shape[0],fb.shape[0]),dtype=object)
 	for ai, a1 in enumerate(fa):
 		for bi, b1 in enumerate(fb):
 			peraxis = [sbox_intersect_1d(a1[d],b1[d],wrap=wrap[d]) for d in range(ndim)]
-- 
2.43.0


From 6bc973b0be23448cc2e7efebc666c0806f18a953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:53 +0000
Subject: [PATCH 003/143] fix: sbox_mul handles boxes with negative step

arr[a][b] with a reversed box a was composed as if a were in ascending order.
---
 pixell/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 39daa75..5bea5cb 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1650,8 +1650,11 @@ def sbox_mul(a,b):
 	b = sbox_fix(b).copy()
 	# It's easiest to implement this for sboxes in normal ordering.
 	# So we will flip a and b as needed, and then flip back the result
-	# if necessary. First compute which  result entries must be flipped.
-	flip = (a[...,2] < 0)^(b[...,2] < 0)
+	# if necessary. Reversing a also reverses the meaning of the indices in b.
+	aneg = a[...,2] < 0
+	b    = np.where(aneg[...,None], (sbox_size(a)-1)[...,None]*[1,1,0]-b, b)
+	# Compute which  result entries must be flipped.
+	flip = b[...,2] < 0
 	# Then flip
 	a[a[...,2]<0] = sbox_flip(a[a[...,2]<0])
 	b[b[...,2]<0] = sbox_flip(b[b[...,2]<0])
-- 
2.43.0


From 6a9f6f100c5ca36cf96b01906d65ddcc56e1f3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:53 +0000
Subject: [PATCH 004/143] fix: sbox_wrap crops strided boxes correctly and
 leaves its argument alone

The number of samples to crop was rounded down instead of up, giving negative or
out-of-range slices for strides above 1, a cap beyond the wrapping length read
pixels twice, and a pixbox passed with explicit strides was modified in place.
---
 pixell/utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 5bea5cb..9d93eef 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1696,7 +1696,8 @@ def sbox_fix0(sbox):
 
 def sbox_fix(sbox):
 	# Ensure that we have a step, setting it to 1 if missing
-	sbox = sbox_fix0(sbox)
+	# Work on a copy so that we don't modify the caller's boxes
+	sbox = sbox_fix0(sbox).copy()
 	# Make sure our end point is a whole multiple of the step
 	# from the start
 	sbox[...,1] = sbox[...,0] + sbox_size(sbox)*sbox[...,2]
@@ -1750,13 +1751,13 @@ def sbox_wrap(sbox, wrap=0, cap=0):
 			boxes_1d = []
 			i = 0
 			while ibox[1] > 0:
-				npre = max((-ibox[0])//ibox[2],0)
+				npre = max(-(ibox[0]//ibox[2]),0)
 				# ibox slice assuming all of the logical ibox is available
 				isub = sbox_fix([ibox[0]+npre*ibox[2],min(ibox[1],w),ibox[2]])
 				nsub = sbox_size(isub)
 				# the physical array may be smaller than the logical one.
 				if c:
-					isub = sbox_fix([ibox[0]+npre*ibox[2],min(ibox[1],c),ibox[2]])
+					isub = sbox_fix([ibox[0]+npre*ibox[2],min(ibox[1],w,c),ibox[2]])
 					ncap = sbox_size(isub)
 				else: ncap = nsub
 				if not flip: osub = [i, i+ncap, 1]
@@ -1771,8 +1772,9 @@ def sbox_wrap(sbox, wrap=0, cap=0):
 			# upwards and downwards capping. Find the number of samples to
 			# crop on each side
 			if c:
-				npre  = max((-ibox[0])//ibox[2],0)
-				npost = max((ibox[1]-ibox[2]-(c-1))//ibox[2],0)
+				# Round up, since partial steps must also be cropped
+				npre  = max(-(ibox[0]//ibox[2]),0)
+				npost = max(-((c-1+ibox[2]-ibox[1])//ibox[2]),0)
 			else: npre, npost = 0, 0
 			# Don't produce a slice if it would be empty
 			if npre + npost < ilen:
-- 
2.43.0


From 3659d0a2d5e1436e00fe0ea8cbfae7e159f1d1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:13 +0000
Subject: [PATCH 005/143] fix: insert honours its wrap, cval and iwcs arguments

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 4a89c96..25f4491 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -704,7 +704,7 @@ def extract_pixbox(map, pixbox, omap=None, wrap="auto", op=lambda a,b:b, cval=0,
 def insert(omap, imap, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None):
 	"""Insert imap into omap based on their world coordinate systems, which
 	must be compatible. Essentially the reverse of extract."""
-	extract(omap, imap.shape, imap.wcs, imap, wrap="auto", op=op, cval=0, iwcs=None, reverse=True)
+	extract(omap, imap.shape, imap.wcs, imap, wrap=wrap, op=op, cval=cval, iwcs=iwcs, reverse=True)
 	return omap
 
 def insert_at(omap, pix, imap, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None):
-- 
2.43.0


From a67a8ec185edba78b23e006001eb898af2737b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:13 +0000
Subject: [PATCH 006/143] fix: ndmap.at honours cval

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 25f4491..5fbe18c 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -104,7 +104,7 @@ class ndmap(np.ndarray):
 	def extract_pixbox(self, pixbox, omap=None, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None, reverse=False): return extract_pixbox(self, pixbox, omap=omap, wrap=wrap, op=op, cval=cval, iwcs=iwcs, reverse=reverse)
 	def insert(self, imap, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None): return insert(self, imap, wrap=wrap, op=op, cval=cval, iwcs=iwcs)
 	def insert_at(self, pix, imap, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None): return insert_at(self, pix, imap, wrap=wrap, op=op, cval=cval, iwcs=iwcs)
-	def at(self, pos, mode="spline", order=3, border="constant", cval=0.0, unit="coord", safe=True, ip=None): return at(self, pos, mode=mode, order=order, border=border, cval=0, unit=unit, safe=safe, ip=ip)
+	def at(self, pos, mode="spline", order=3, border="constant", cval=0.0, unit="coord", safe=True, ip=None): return at(self, pos, mode=mode, order=order, border=border, cval=cval, unit=unit, safe=safe, ip=ip)
 	def argmax(self, unit="coord"): return argmax(self, unit=unit)
 	def autocrop(self, method="plain", value="auto", margin=0, factors=None, return_info=False): return autocrop(self, method, value, margin, factors, return_info)
 	def apod(self, width, profile="cos", fill="zero"): return apod(self, width, profile=profile, fill=fill)
-- 
2.43.0


From 674d84bf4dc401d12993f3341c1138aacd96352e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:14 +0000
Subject: [PATCH 007/143] fix: ndmap.fillbad returns the filled map

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 5fbe18c..b7dcbf9 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -118,7 +118,7 @@ class ndmap(np.ndarray):
 	def center(self): return center(self.shape,self.wcs)
 	def downgrade(self, factor, op=np.mean, ref=None, off=None): return downgrade(self, factor, op=op, ref=ref, off=off)
 	def upgrade(self, factor,  off=None, oshape=None, inclusive=False): return upgrade(self, factor, off=off, oshape=oshape, inclusive=inclusive)
-	def fillbad(self, val=0, inplace=False): fillbad(self, val=val, inplace=inplace)
+	def fillbad(self, val=0, inplace=False): return fillbad(self, val=val, inplace=inplace)
 	def to_healpix(self, nside=0, order=3, omap=None, chunk=100000, destroy_input=False):
 		return to_healpix(self, nside=nside, order=order, omap=omap, chunk=chunk, destroy_input=destroy_input)
 	def to_flipper(self, omap=None, unpack=True): return to_flipper(self, omap=omap, unpack=unpack)
-- 
2.43.0


From 3fff5a7c341c8c0529c38a54cf253b4aff7a56db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:14 +0000
Subject: [PATCH 008/143] fix: overlap no longer modifies the pixbox it is
 given

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index b7dcbf9..29b45ee 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -734,7 +734,7 @@ def overlap(shape, wcs, shape2_or_pixbox, wcs2=None, wrap="auto"):
 	# Is it a shape or a pixbox
 	tmp = np.asarray(shape2_or_pixbox)
 	if   tmp.ndim == 1: pixbox = pixbox_of(wcs, shape2_or_pixbox, wcs2)
-	elif tmp.ndim == 2: pixbox = shape2_or_pixbox
+	elif tmp.ndim == 2: pixbox = np.array(tmp)
 	else: raise ValueError("3rd argument of overlap should be an enmap, a shape tuple or a pixbox")
 	# Handle wrapping
 	nphi = utils.nint(360/np.abs(wcs.wcs.cdelt[0]))
-- 
2.43.0


From 1f14e37f6889bbd326a374e9d72035353d1598f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:31 +0000
Subject: [PATCH 009/143] fix: pad with wrap works when a side is not padded

---
 pixell/enmap.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 29b45ee..86a1b76 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2258,10 +2258,11 @@ def pad(emap, pix, return_slice=False, wrap=False, value=0):
 	mslice = (Ellipsis,slice(pix[0,0],res.shape[-2]-pix[1,0]),slice(pix[0,1],res.shape[-1]-pix[1,1]))
 	res[mslice] = emap
 	if wrap:
-		res[...,:pix[0,0],:]  = res[...,-pix[0,0]-pix[1,0]:-pix[1,0],:]
-		res[...,-pix[1,0]:,:] = res[...,pix[0,0]:pix[0,0]+pix[1,0],:]
-		res[...,:,:pix[0,1]]  = res[...,:,-pix[0,1]-pix[1,1]:-pix[1,1]]
-		res[...,:,-pix[1,1]:] = res[...,:,pix[0,1]:pix[0,1]+pix[1,1]]
+		ny, nx = emap.shape[-2:]
+		res[...,:pix[0,0],:]    = res[...,ny:ny+pix[0,0],:]
+		res[...,pix[0,0]+ny:,:] = res[...,pix[0,0]:pix[0,0]+pix[1,0],:]
+		res[...,:,:pix[0,1]]    = res[...,:,nx:nx+pix[0,1]]
+		res[...,:,pix[0,1]+nx:] = res[...,:,pix[0,1]:pix[0,1]+pix[1,1]]
 	return (res,mslice) if return_slice else res
 
 def find_blank_edges(m, value="auto"):
-- 
2.43.0


From 6339f58d82d7faf9398ba45d856564178e0c5167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:31 +0000
Subject: [PATCH 010/143] fix: crop_geometry selects the right region for boxes
 opposite to the pixel direction

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 86a1b76..232e60d 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2053,7 +2053,7 @@ def crop_geometry(shape, wcs, box=None, pixbox=None, oshape=None):
 		box    = np.asarray(box)
 		# Allow box and pixbox to be 1d, in which case we will
 		# crop around a central point
-		if box.ndim == 2: pixbox = subinds(shape, wcs, box)
+		if box.ndim == 2: pixbox = subinds(shape, wcs, box, noflip=True)
 		else:             pixbox = utils.nint(sky2pix(shape, wcs, box))
 	# We assume that the box selects pixel edges, so any pixel that is
 	# even partially inside the box should be included. This means that
-- 
2.43.0


From 5d97a66736c412a710475e7ad279daccd652de36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:31 +0000
Subject: [PATCH 011/143] fix: Geometry can be made from a Geometry, and
 downgraded

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 232e60d..7158215 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -301,7 +301,7 @@ class Geometry:
 	def __init__(self, shape, wcs=None):
 		try: self.shape, self.wcs = tuple(shape.shape), shape.wcs
 		except AttributeError: self.shape, self.wcs = tuple(shape), wcs
-		assert wcs is not None, "Geometry __init__ needs either a Geometry object or a shape, wcs pair"
+		assert self.wcs is not None, "Geometry __init__ needs either a Geometry object or a shape, wcs pair"
 	@property
 	def npix(self): return self.shape[-2]*self.shape[-1]
 	# Make it behave a bit like a tuple, so we can use it interchangably with a shape, wcs pair
@@ -325,7 +325,7 @@ class Geometry:
 		shape, wcs = scale_geometry(self.shape, self.wcs, scale)
 		return Geometry(shape, wcs)
 	def downgrade(self, factor, op=np.mean):
-		shape, wcs = downgrade_geometry(self.shape, self.wcs, factor, op=op)
+		shape, wcs = downgrade_geometry(self.shape, self.wcs, factor)
 		return Geometry(shape, wcs)
 	def copy(self):
 		return Geometry(tuple(self.shape), self.wcs.deepcopy())
-- 
2.43.0


From d63e31a98e87d5c4c4e866ab8a5c1b375fda5877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:31 +0000
Subject: [PATCH 012/143] fix: downgrade_geometry keeps the leading axes, like
 downgrade

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 7158215..9da98ab 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2041,7 +2041,7 @@ def downgrade_geometry(shape, wcs, factor):
 	to scale_geometry, but truncates the same way as downgrade, and only
 	supports integer factors."""
 	factor = np.full(2, 1, dtype=int)*factor
-	oshape = tuple(shape[-2:]//factor)
+	oshape = tuple(shape[:-2]) + tuple(shape[-2:]//factor)
 	owcs   = wcsutils.scale(wcs, 1.0/factor, rowmajor=True)
 	return oshape, owcs
 
-- 
2.43.0


From d9777f3608843acd794376dd0b8aa94b48824247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:31 +0000
Subject: [PATCH 013/143] fix: autocrop passes on its factors argument

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 9da98ab..834ccba 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2308,7 +2308,7 @@ def autocrop(m, method="plain", value="auto", margin=0, factors=None, return_inf
 	if method == "plain":
 		goodshape = minshape
 	elif method == "fft":
-		goodshape = np.array([enfft.fft_len(l, direction="above", factors=None) for l in minshape])
+		goodshape = np.array([enfft.fft_len(l, direction="above", factors=factors) for l in minshape])
 	else:
 		raise ValueError("Unknown autocrop method %s!" % method)
 	# Pad if necessary
-- 
2.43.0


From b78fd87eefbf093ffc0f6503f47fd9ab8f07d5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:07 +0000
Subject: [PATCH 014/143] fix: fix_wcs moves crval by as much as crpix

---
 pixell/wcsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wcsutils.py b/pixell/wcsutils.py
index c4325d4..236c3bc 100644
--- a/pixell/wcsutils.py
+++ b/pixell/wcsutils.py
@@ -618,7 +618,7 @@ def fix_wcs(wcs, axis=0, n=None):
 	dra   = mid-wcs.wcs.crval[axis]
 	dpix  = dra/wcs.wcs.cdelt[axis]
 	res = wcs.deepcopy()
-	res.wcs.crval[axis] += mid
+	res.wcs.crval[axis] += dra
 	res.wcs.crpix[axis] += dpix
 	# I don't think this is necessary any more, but apparently I had
 	# problems with wcs not being properly updated if I didn't do this
-- 
2.43.0


From 6071ccefc40a19da4ab04aa2aeb65cda6fa4fa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:07 +0000
Subject: [PATCH 015/143] fix: recenter_cyl_ra passes on its wcs

---
 pixell/wcsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wcsutils.py b/pixell/wcsutils.py
index 236c3bc..12209ee 100644
--- a/pixell/wcsutils.py
+++ b/pixell/wcsutils.py
@@ -343,7 +343,7 @@ def recenter_cyl_x(wcs, x):
 	return owcs
 
 def recenter_cyl_ra(wcs, ra):
-	return recenter_cyl_x(wcs.wcs.crpix[0] + (ra-wcs.wcs.crval[0])/wcs.wcs.cdelt[0])
+	return recenter_cyl_x(wcs, wcs.wcs.crpix[0] + (ra-wcs.wcs.crval[0])/wcs.wcs.cdelt[0])
 
 def fix_wcs(wcs, axis=0):
 	"""Returns a new WCS object which has had the reference pixel moved to the
-- 
2.43.0


From ee4a8b8388fcf01e1134db4b97c817586399d31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:47 +0000
Subject: [PATCH 016/143] fix: inclusive block_expand and upgrade accept numpy
 integers

---
 pixell/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 9d93eef..783e35c 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2230,7 +2230,8 @@ def block_expand(a, bsize, osize, axis=-1, off=0, op="nearest", inclusive=True):
 	axis  %= a.ndim
 	if op == "nearest":
 		if inclusive:
-			pre, mid, tail = np.split(a, [off>0,(off>0)+nwhole], axis)
+			npre = int(off>0)
+			pre, mid, tail = np.split(a, [npre,npre+nwhole], axis)
 			parts = []
 			if pre.size > 0: parts.append(np.repeat(pre, off,   axis))
 			if mid.size > 0: parts.append(np.repeat(mid, bsize, axis))
-- 
2.43.0


From a6e6844e81654a19dfd805b3a711e4ffab99b680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:27 +0000
Subject: [PATCH 017/143] fix: nearest_product returns the highest product
 below n

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 783e35c..1c376b8 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -786,7 +786,7 @@ def nearest_product(n, factors, direction="below"):
 			m = i*f
 			if below:
 				if m > n: continue
-				else: best = m
+				elif best is None or m > best: best = m
 			else:
 				if m >= n and (best is None or best > m):
 					best = m
-- 
2.43.0


From 7a66dfe7c1e0d54b6ff7b61afc477861b02b319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:48 +0000
Subject: [PATCH 018/143] fix: pixelization with a given shape returns that
 shape

---
 pixell/wcsutils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pixell/wcsutils.py b/pixell/wcsutils.py
index 12209ee..6eee218 100644
--- a/pixell/wcsutils.py
+++ b/pixell/wcsutils.py
@@ -84,8 +84,8 @@ def pixelization(pwcs, shape=None, res=None, variant=None):
 		ra1, ra2, nx, ox1, ox2 = pixelize_1d(extent[0], res=res[0],  offs=offs[0], periodic=periodic[0])
 		dec1,dec2,ny, oy1, oy2 = pixelize_1d(extent[1], res=res[1],  offs=offs[1], periodic=periodic[1])
 	elif res is None:
-		ra1, ra2, nx, ox1, ox2 = pixelize_1d(extent[0], n=shape[-2], offs=offs[0], periodic=periodic[0])
-		dec1,dec2,ny, oy1, oy2 = pixelize_1d(extent[1], n=shape[-2], offs=offs[1], periodic=periodic[0])
+		ra1, ra2, nx, ox1, ox2 = pixelize_1d(extent[0], n=shape[-1], offs=offs[0], periodic=periodic[0])
+		dec1,dec2,ny, oy1, oy2 = pixelize_1d(extent[1], n=shape[-2], offs=offs[1], periodic=periodic[1])
 	else:
 		raise ValueError("Either res or shape must be given to build a pixelization")
 	# Now that we have the intermediate coordinates of our endpoints, we
@@ -313,6 +313,9 @@ def pixelize_1d(w, n=None, res=None, offs=None, periodic=False, adjust=False, si
 	else:
 		if o1 is None: o1 =  0.5
 		if o2 is None: o2 = -0.5
+		# With pixel centers at both edges of a periodic axis, the last one
+		# repeats the first, and is removed again below
+		if periodic and o1 == o2: n += 1
 		res = w/(n-1+o1-o2)
 	# Finish up
 	if o1 is not None:
-- 
2.43.0


From 7d0c583f6d55fd99d14ef1cebfa37f2bab86f5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:48 +0000
Subject: [PATCH 019/143] fix: pixelization keeps pixel centers at the edges of
 a periodic axis

---
 pixell/wcsutils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/wcsutils.py b/pixell/wcsutils.py
index 6eee218..df3bee9 100644
--- a/pixell/wcsutils.py
+++ b/pixell/wcsutils.py
@@ -329,6 +329,7 @@ def pixelize_1d(w, n=None, res=None, offs=None, periodic=False, adjust=False, si
 	if periodic and np.allclose(ra2-ra1,w):
 		ra2 -= res
 		n   -= 1
+		o2  -= 1
 	# Apply any sign
 	ra1 *= sign
 	ra2 *= sign
-- 
2.43.0


From 3286aeca7d8f65ee7497a9a683ab4443eeb76f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:48 +0000
Subject: [PATCH 020/143] fix: fullsky_geometry2 and band_geometry2 use
 geometry2

---
 pixell/enmap.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 834ccba..0a83483 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1582,7 +1582,7 @@ def fullsky_geometry2(res=None, shape=None, pre=None, deg=False, proj="car", var
 	geometry(). See its docstring for the meaning of the arguments.
 
 	dims is an alias for pre provided for backwards compatibility"""
-	return geometry(res=res, shape=shape, deg=deg, pre=pre or dims or (), proj=proj, variant=variant)
+	return geometry2(res=res, shape=shape, deg=deg, pre=pre or dims or (), proj=proj, variant=variant)
 
 def band_geometry2(decrange, res=None, shape=None, pre=None, deg=False, proj="car", variant=None, dims=None):
 	"""Build a geometry covering a range of declinations. Equivalent to
@@ -1591,10 +1591,11 @@ def band_geometry2(decrange, res=None, shape=None, pre=None, deg=False, proj="ca
 
 	dims is an alias for pre provided for backwards compatibility"""
 	unit     = utils.degree if deg else 1
-	decrange = (np.zeros(2)+decrange)*unit
+	if np.ndim(decrange) == 0: decrange = [-decrange,decrange]
+	decrange = np.asarray(decrange)*unit
 	if decrange.shape != (2,): raise ValueError("decrange must be a number or (dec1,dec2)")
 	pos      = np.array([[decrange[0],np.pi],[decrange[1],-np.pi]])/unit
-	return geometry(pos=pos, res=res, shape=shape, deg=deg, pre=pre or dims or (), proj=proj, variant=variant)
+	return geometry2(pos=pos, res=res, shape=shape, deg=deg, pre=pre or dims or (), proj=proj, variant=variant)
 
 # Idea: Make geometry a class with .shape and .wcs members.
 # Make a function that takes (foo,bar) and returns a geometry,
-- 
2.43.0


From 3898c47994f80fe3a779001b6cb91ac93ba78783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:48 +0000
Subject: [PATCH 021/143] fix: band_geometry may reach the north pole

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 0a83483..c40c321 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1720,7 +1720,7 @@ def band_geometry(dec_cut, res=None, shape=None, dims=(), proj="car", variant="f
 	Ny,_ = ishape[-2:]
 	start = max(int(np.round(start)),0); stop = min(int(np.round(stop)),Ny)
 	assert start>=0 and start<Ny
-	assert stop>=0 and stop<Ny
+	assert stop>=0 and stop<=Ny
 	return slice_geometry(ishape,iwcs,np.s_[start:stop,:])
 
 def thumbnail_geometry(r=None, res=None, shape=None, dims=(), proj="tan"):
-- 
2.43.0


From 79d6925a26066d8f45137c372146fd7559050ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:03 +0000
Subject: [PATCH 022/143] fix: pixelize_1d no longer drops a pixel of very fine
 periodic axes

---
 pixell/wcsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wcsutils.py b/pixell/wcsutils.py
index df3bee9..ac3c61d 100644
--- a/pixell/wcsutils.py
+++ b/pixell/wcsutils.py
@@ -326,7 +326,7 @@ def pixelize_1d(w, n=None, res=None, offs=None, periodic=False, adjust=False, si
 		ra1 = ra2 - (n-1)*res
 	# If this axis is periodic, then the last point could be equal to the first,
 	# depending on the pixelization
-	if periodic and np.allclose(ra2-ra1,w):
+	if periodic and abs(ra2-ra1-w) < 1e-3*res:
 		ra2 -= res
 		n   -= 1
 		o2  -= 1
-- 
2.43.0


From a3869d9ed023c4d6ffce3f98efd65d13008c4823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:37 +0000
Subject: [PATCH 023/143] fix: geometry2 no longer truncates patches that cross
 the edge of the full sky

---
 pixell/enmap.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index c40c321..f7fe703 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1549,7 +1549,12 @@ def geometry2(pos=None, res=None, shape=None, proj="car", variant=None,
 		else: psign = np.sign(pos[1]-pos[0])
 		res = wcsutils.expand_res(res,signs=psign,flip=True)*unit/utils.degree
 		oshape, owcs = wcsutils.pixelization(pwcs, res=res, variant=variant)
-		oshape, owcs = crop_geometry(oshape, owcs, box=pos, oshape=shape)
+		pixbox = None
+		if pos.ndim == 2:
+			pixbox = subinds(oshape, owcs, pos, noflip=True)
+			# The patch may cross the ra edge of the full-sky pixelization
+			if wcsutils.is_cyl(owcs): pixbox[:,1] = subinds(oshape, owcs, pos, noflip=True, cap=False)[:,1]
+		oshape, owcs = crop_geometry(oshape, owcs, box=pos, pixbox=pixbox, oshape=shape)
 	# Add the pre-dimensions
 	oshape = pre + oshape
 	# For cylindrical projections we can move crval along the equator
-- 
2.43.0


From 742c56920c7e8441df282011778c3b00dfe5323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:34 +0000
Subject: [PATCH 024/143] fix: pixshapebounds returns [{min,max},{y,x}] for
 non-separable geometries too

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index f7fe703..5823dee 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1192,7 +1192,7 @@ def pixshapebounds(shape, wcs, separable="auto"):
 	if separable == True or (separable == "auto" and wcsutils.is_separable(wcs)):
 		return utils.minmax(pixshapes_cyl(shape, wcs),1)
 	else:
-		return utils.minmax(pixshapemap(shape, wcs))
+		return utils.minmax(pixshapemap(shape, wcs), (-2,-1))
 
 def lmap(shape, wcs, oversample=1, method="auto"):
 	"""Return a map of all the wavenumbers in the fourier transform
-- 
2.43.0


From 6fcbb607a7126ad89bd42f0e7d6591372f8208e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:34 +0000
Subject: [PATCH 025/143] fix: enmap.idct inverts enmap.dct

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 5823dee..a1d7a7b 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1270,7 +1270,7 @@ def fft(emap, omap=None, nthread=0, normalize=True, adjoint_ifft=False, dct=Fals
 	else:   res  = samewcs(enfft.fft(emap,omap,axes=[-2,-1],nthread=nthread), emap)
 	norm = 1
 	if normalize:
-		if dct: norm /= np.prod(2*np.array(emap.shape[-2:])-1)**0.5
+		if dct: norm /= np.prod(2*(np.array(emap.shape[-2:])-1))**0.5
 		else:   norm /= np.prod(emap.shape[-2:])**0.5
 	if normalize in ["phy","phys","physical"]:
 		if adjoint_ifft: norm /= emap.pixsize()**0.5
@@ -1283,7 +1283,7 @@ def ifft(emap, omap=None, nthread=0, normalize=True, adjoint_fft=False, dct=Fals
 	else:   res  = samewcs(enfft.ifft(emap,omap,axes=[-2,-1],nthread=nthread, normalize=False), emap)
 	norm = 1
 	if normalize:
-		if dct: norm /= np.prod(2*np.array(emap.shape[-2:])-1)**0.5
+		if dct: norm /= np.prod(2*(np.array(emap.shape[-2:])-1))**0.5
 		else:   norm /= np.prod(emap.shape[-2:])**0.5
 	if normalize in ["phy","phys","physical"]:
 		if adjoint_fft: norm *= emap.pixsize()**0.5
-- 
2.43.0


From 1b4520f1458235949568a5ce5bd316606f19fcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:34 +0000
Subject: [PATCH 026/143] fix: chebt and ichebt scale along the axis they
 transform

---
 pixell/fft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index f486b48..204a184 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -309,13 +309,13 @@ def redft00(a, b=None, nthread=0, normalize=False, flags=None, engine="auto"):
 def chebt(a, b=None, nthread=0, flags=None, engine="auto"):
 	"""The chebyshev transform of a, along its last dimension."""
 	b = redft00(a, b, nthread, normalize=True, flags=flags, engine=engine)
-	b[1:-1] *= 2
+	b[...,1:-1] *= 2
 	return b
 
 def ichebt(a, b=None, nthread=0, engine="auto"):
 	"""The inverse chebyshev transform of a, along its last dimension."""
 	a = asfcarray(a).copy()
-	a[1:-1] *= 0.5
+	a[...,1:-1] *= 0.5
 	return redft00(a, b, nthread, engine=engine)
 
 def fft_len(n, direction="below", factors=None):
-- 
2.43.0


From 1c77b9864a97fdf4872f3e20f511ecbc4ad5b246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:34 +0000
Subject: [PATCH 027/143] fix: fft.resample_fft keeps the right frequencies for
 odd lengths

---
 pixell/fft.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index 204a184..7fd6759 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -419,8 +419,10 @@ def resample_fft(fa, n, out=None, axes=-1, norm=1, op=lambda a,b:b):
 		sel = [slice(None) for n in oshape]
 		for ai, ax in enumerate(axes):
 			c = min(fa.shape[ax], oshape[ax])
-			if I[ai] == 0: sel[ax] = slice(0,c//2)
-			else:          sel[ax] = slice(-(c-c//2),None)
+			# There is one more non-negative frequency than negative ones if c is odd
+			if   I[ai] == 0: sel[ax] = slice(0,(c+1)//2)
+			elif c//2 == 0:  sel[ax] = slice(0,0)
+			else:            sel[ax] = slice(-(c//2),None)
 		sel = tuple(sel)
 		transfer(out[sel], fa[sel], norm, op)
 	return out
-- 
2.43.0


From c6a1409110b0c4fd08d0788126df9290a4b0bbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:34 +0000
Subject: [PATCH 028/143] fix: enmap.resample_fft keeps the right frequencies
 for odd lengths

---
 pixell/enmap.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index a1d7a7b..34e5b8b 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3167,15 +3167,18 @@ def resample_fft(fimap, oshape, fomap=None, off=(0,0), corner=True, norm="pix",
 	# fourier center had been in the middle. This could be acieved using fftshift,
 	# but that would require two extra full-array shifts
 	cny, cnx = np.minimum(fimap.shape[-2:], oshape[-2:])
-	hny, hnx = cny//2, cnx//2
+	# There is one more non-negative frequency than negative ones if the length is odd
+	hny, hnx = (cny+1)//2, (cnx+1)//2
+	iy, ix   = [fimap.shape[-2]-(cny-hny), fimap.shape[-1]-(cnx-hnx)]
+	oy, ox   = [fomap.shape[-2]-(cny-hny), fomap.shape[-1]-(cnx-hnx)]
 	# This function is used to avoid paying the cost of multiplying by norm when it's one
 	def transfer(dest, source, norm, op):
 		if norm != 1: source = source*norm
 		dest[:] = op(dest, source)
 	transfer(fomap[...,:hny,       :hnx       ],fimap[...,:hny,       :hnx       ], norm, op)
-	transfer(fomap[...,:hny,       -(cnx-hnx):],fimap[...,:hny,       -(cnx-hnx):], norm, op)
-	transfer(fomap[...,-(cny-hny):,:hnx       ],fimap[...,-(cny-hny):,:hnx       ], norm, op)
-	transfer(fomap[...,-(cny-hny):,-(cnx-hnx):],fimap[...,-(cny-hny):,-(cnx-hnx):], norm, op)
+	transfer(fomap[...,:hny,       ox:        ],fimap[...,:hny,       ix:        ], norm, op)
+	transfer(fomap[...,oy:,        :hnx       ],fimap[...,iy:,        :hnx       ], norm, op)
+	transfer(fomap[...,oy:,        ox:        ],fimap[...,iy:,        ix:        ], norm, op)
 	if np.any(off != 0):
 		# It's fastest to do this here when downsampling, but when upsampling
 		# it's faster to do so in the fimap. And for a mix it's bad to do it both places.
-- 
2.43.0


From c7fb1a6d6388c5f13405cfbf51ee4376a641d8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:34 +0000
Subject: [PATCH 029/143] fix: resample_fft looks at the axes it resamples

---
 pixell/resample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/resample.py b/pixell/resample.py
index 21e5a36..ad8b39d 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -67,7 +67,7 @@ def resample_fft(d, n, axes=None):
 	else: assert len(n) == len(axes)
 	assert len(n) <= d.ndim
 	# Nothing to do?
-	if np.all(d.shape[-len(n):] == n): return d
+	if all(d.shape[ax] == nnew for ax, nnew in zip(axes, n)): return d
 	# Use the simple version if we can. It has lower memory overhead
 	if d.ndim == 2 and len(n) == 1 and (axes[0] == 1 or axes[0] == -1):
 		return resample_fft_simple(d, n[0])
-- 
2.43.0


From 9ec85e4d96d9fbbbb7b2290c962abe680534e001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:34 +0000
Subject: [PATCH 030/143] fix: resample.resample_fft keeps the right
 frequencies for odd lengths

---
 pixell/resample.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pixell/resample.py b/pixell/resample.py
index ad8b39d..f46689d 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -86,12 +86,12 @@ def resample_fft(d, n, axes=None):
 		dn   = nnew-nold
 		if dn > 0:
 			padvals = np.zeros(fd.shape[:ax]+(dn,)+fd.shape[ax+1:],fd.dtype)
-			spre  = tuple([slice(None)]*ax+[slice(0,nold//2)]+[slice(None)]*(fd.ndim-ax-1))
-			spost = tuple([slice(None)]*ax+[slice(nold//2,None)]+[slice(None)]*(fd.ndim-ax-1))
+			spre  = tuple([slice(None)]*ax+[slice(0,(nold+1)//2)]+[slice(None)]*(fd.ndim-ax-1))
+			spost = tuple([slice(None)]*ax+[slice((nold+1)//2,None)]+[slice(None)]*(fd.ndim-ax-1))
 			fd = np.concatenate([fd[spre],padvals,fd[spost]],axis=ax)
 		elif dn < 0:
-			spre  = tuple([slice(None)]*ax+[slice(0,nnew//2)]+[slice(None)]*(fd.ndim-ax-1))
-			spost = tuple([slice(None)]*ax+[slice(nnew//2-dn,None)]+[slice(None)]*(fd.ndim-ax-1))
+			spre  = tuple([slice(None)]*ax+[slice(0,(nnew+1)//2)]+[slice(None)]*(fd.ndim-ax-1))
+			spost = tuple([slice(None)]*ax+[slice((nnew+1)//2-dn,None)]+[slice(None)]*(fd.ndim-ax-1))
 			fd = np.concatenate([fd[spre],fd[spost]],axis=ax)
 		norm *= float(nnew)/nold
 	# And transform back
@@ -110,9 +110,9 @@ def resample_fft_simple(d, n, ngroup=100):
 	for di in range(0, d.shape[0], ngroup):
 		fd = fft.fft(d[di:di+ngroup])
 		if n < nold:
-			fd = np.concatenate([fd[:,:n//2],fd[:,n//2-dn:]],1)
+			fd = np.concatenate([fd[:,:(n+1)//2],fd[:,(n+1)//2-dn:]],1)
 		else:
-			fd = np.concatenate([fd[:,:nold//2],np.zeros([len(fd),n-nold],fd.dtype),fd[:,nold//2:]],-1)
+			fd = np.concatenate([fd[:,:(nold+1)//2],np.zeros([len(fd),n-nold],fd.dtype),fd[:,(nold+1)//2:]],-1)
 		res[di:di+ngroup] = fft.ifft(fd, normalize=True).real
 		del fd
 	res *= float(n)/nold
-- 
2.43.0


From 7a75e0c8bc070e95b2832de991d6bdba8e70ebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:34 +0000
Subject: [PATCH 031/143] fix: resample_fft keeps the imaginary part of 2d
 complex arrays

---
 pixell/resample.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/resample.py b/pixell/resample.py
index f46689d..75bfd0a 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -113,7 +113,8 @@ def resample_fft_simple(d, n, ngroup=100):
 			fd = np.concatenate([fd[:,:(n+1)//2],fd[:,(n+1)//2-dn:]],1)
 		else:
 			fd = np.concatenate([fd[:,:(nold+1)//2],np.zeros([len(fd),n-nold],fd.dtype),fd[:,(nold+1)//2:]],-1)
-		res[di:di+ngroup] = fft.ifft(fd, normalize=True).real
+		fd = fft.ifft(fd, normalize=True)
+		res[di:di+ngroup] = fd if np.iscomplexobj(d) else fd.real
 		del fd
 	res *= float(n)/nold
 	return res
-- 
2.43.0


From fe035776304b1cd59bd48d2ebec5a611633fae65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:34 +0000
Subject: [PATCH 032/143] fix: upsample_bin assigns steps to axes in the same
 order as downsample_bin

---
 pixell/resample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/resample.py b/pixell/resample.py
index 75bfd0a..ac65833 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -40,7 +40,7 @@ def downsample_bin(d, steps=[2], axes=None):
 def upsample_bin(d, steps=[2], axes=None):
 	shape = d.shape
 	assert len(steps) <= d.ndim
-	if axes is None: axes = np.arange(-1,-len(steps)-1,-1)
+	if axes is None: axes = range(-len(steps),0)
 	assert len(axes) == len(steps)
 	# Expand steps to cover every axis in order
 	fullsteps = np.zeros(d.ndim,dtype=int)+1
-- 
2.43.0


From 5533656c18a0103b5e81a2fd013e69b3d8df35a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:51 +0000
Subject: [PATCH 033/143] fix: irfft works for axes of length 1 and 2

---
 pixell/fft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index 7fd6759..be33776 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -21,7 +21,7 @@ class numpy_FFTW:
 				# Real to complex
 				self.b[:] = np.fft.rfftn(self.a, axes=self.axes)
 		else:
-			if self.a.shape == self.b.shape:
+			if np.iscomplexobj(self.b):
 				# Complex to complex
 				self.b[:] = np.fft.ifftn(self.a, axes=self.axes)
 			else:
@@ -53,7 +53,7 @@ class ducc_FFTW:
 				# Real to complex
 				ducc0.fft.r2c(self.a, axes=self.axes, out=self.b, nthreads=self.threads)
 		elif self.direction == "FFTW_BACKWARD":
-			if self.a.shape == self.b.shape:
+			if np.iscomplexobj(self.b):
 				# Complex to complex
 				ducc0.fft.c2c(a=self.a, axes=self.axes, out=self.b, forward=False, inorm=2 if normalise_idft else 0, nthreads=self.threads)
 			else:
-- 
2.43.0


From 83a4eaf2f1ba8b81b70455bd3323bc2772fb6109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:25 +0000
Subject: [PATCH 034/143] fix: wcsutils.scale with corner=False keeps the
 center of the first pixel in place

---
 pixell/wcsutils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pixell/wcsutils.py b/pixell/wcsutils.py
index ac3c61d..46fef59 100644
--- a/pixell/wcsutils.py
+++ b/pixell/wcsutils.py
@@ -195,12 +195,12 @@ def scale(wcs, scale=1, rowmajor=False, corner=True):
 	scale = np.zeros(2)+scale
 	if rowmajor: scale = scale[::-1]
 	wcs = wcs.deepcopy()
-	if corner:
-		wcs.wcs.crpix -= 0.5
+	# The point that stays in place: the edge or center of the first pixel
+	off = 0.5 if corner else 1
+	wcs.wcs.crpix -= off
 	wcs.wcs.crpix *= scale
 	wcs.wcs.cdelt /= scale
-	if corner:
-		wcs.wcs.crpix += 0.5
+	wcs.wcs.crpix += off
 	return wcs
 
 #def expand_res(res, default_dirs=[1,-1]):
-- 
2.43.0


From 7e81a09e0dee8c895af5a9c1e573e5e709cb9050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:26 +0000
Subject: [PATCH 035/143] fix: single-precision lmatmul does not run past lmax
 when the matrix has more multipoles

---
 cython/cmisc_core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cython/cmisc_core.c b/cython/cmisc_core.c
index ded2d9a..cb751b0 100644
--- a/cython/cmisc_core.c
+++ b/cython/cmisc_core.c
@@ -208,7 +208,7 @@ void lmatmul_sp(int N, int M, int lmax, int mmax, int64_t * mstart, float ** alm
 		float * vimag = calloc(N, sizeof(float));
 		#pragma omp for
 		for(int m = 0; m <= mmax; m++) {
-			for(int l = m; l <= lfmax; l++) {
+			for(int l = m; l <= leff; l++) {
 				int64_t i = mstart[m]+l;
 				// Zero out the work arrays
 				for(int r = 0; r < N; r++) { vreal[r] = vimag[r] = 0; }
-- 
2.43.0


From 0e462851a225536db1a3739f52976edcbdf68186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:26 +0000
Subject: [PATCH 036/143] fix: lmul refuses an output array that is
 non-contiguous or of the wrong type

---
 cython/cmisc.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cython/cmisc.pyx b/cython/cmisc.pyx
index 6b5ea81..9ada4fe 100644
--- a/cython/cmisc.pyx
+++ b/cython/cmisc.pyx
@@ -157,7 +157,7 @@ def lmul(ainfo, alm, lfun, out=None):
 	# The arrays need to be contiguous along the last dimension
 	alm  = aslastcontig(alm,  dtype=ctype)
 	lfun = aslastcontig(lfun, dtype=rtype)
-	if out is not None and not islastcontig(out) and out.dtype != ctype:
+	if out is not None and (not islastcontig(out) or out.dtype != ctype):
 		raise ValueError("lmul's out argument must be contiguous along last axis, and have the same dtype as alm")
 	# Are we doing a matmul?
 	if lfun.ndim == 3 and alm.ndim == 2:
-- 
2.43.0


From 7f6244caa16988cd737e45c5727fb9a83366ce3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:26 +0000
Subject: [PATCH 037/143] fix: calc_locinfo does not skip the last row

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 004ab7d..f6126ab 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -1332,7 +1332,7 @@ def calc_locinfo(shape, wcs, bsize=1000):
 	loc  = np.zeros((shape[-2]*shape[-1],2))
 	mask = np.zeros(shape[-2:],bool)
 	off  = 0
-	for b1 in range(0, shape[-2]-1, bsize):
+	for b1 in range(0, shape[-2], bsize):
 		b2      = min(b1+bsize, shape[-2])
 		subgeo  = enmap.Geometry(shape, wcs)[b1:b2]
 		subpos  = enmap.posmap(*subgeo, safe=False)
-- 
2.43.0


From fb2441449a8fadc6a2dde742d60ef7ee3b3b0d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:26 +0000
Subject: [PATCH 038/143] fix: alm2map_raw_general respects the alm layout

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index f6126ab..5737513 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -972,7 +972,7 @@ def alm2map_raw_general(alm, map, loc, ainfo=None, spin=[0,2], deriv=False, copy
 	if epsilon is None:
 		if map.dtype == np.float64: epsilon = 1e-10
 		else:                       epsilon = 1e-6
-	kwargs = {"loc":loc, "lmax":ainfo.lmax, "mmax":ainfo.mmax, "nthreads":nthread, "epsilon":epsilon}
+	kwargs = {"loc":loc, "lmax":ainfo.lmax, "mmax":ainfo.mmax, "nthreads":nthread, "epsilon":epsilon, "mstart":ainfo.mstart}
 	# Iterate over all the predimensions.
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
-- 
2.43.0


From 386c6c340d7be211902572c9ba0ef955a01fb6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:26 +0000
Subject: [PATCH 039/143] fix: general transforms of 2d maps with invalid
 pixels

---
 pixell/curvedsky.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 5737513..e097628 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -775,7 +775,7 @@ def alm2map_general(alm, map, ainfo=None, spin=[0,2], deriv=False, copy=False, v
 	# these, so looping in python is cheap
 	for I in utils.nditer(map.shape[:-3]):
 		if locinfo.masked:
-			mslice = (mask,) if map.ndim == 2 else (slice(None),locinfo.mask)
+			mslice = (locinfo.mask,) if map.ndim == 2 else (slice(None),locinfo.mask)
 			tmap = np.ascontiguousarray(map[I][mslice])
 		else:
 			tmap = utils.postflat(map[I],2)
@@ -854,7 +854,7 @@ def map2alm_general(map, alm=None, ainfo=None, minfo=None, lmax=None, spin=[0,2]
 	if weights is None: weights = map.pixsizemap()[locinfo.mask].astype(map.dtype, copy=False)
 	for I in utils.nditer(map.shape[:-3]):
 		if locinfo.masked:
-			mslice = (mask,) if map.ndim == 2 else (slice(None),locinfo.mask)
+			mslice = (locinfo.mask,) if map.ndim == 2 else (slice(None),locinfo.mask)
 			tmap = np.ascontiguousarray(map[I][mslice])
 		else:
 			tmap = utils.postflat(map[I],2)
-- 
2.43.0


From 21615106a9e7672033b09077273e642c023ef44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:26 +0000
Subject: [PATCH 040/143] fix: DH maps start at the north pole, not one row
 before it

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index e097628..9066794 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -1304,7 +1304,7 @@ def get_ducc_geo(wcs, shape=None, tol=1e-6):
 	# makes it easier to read
 	if   hasoff(y1,0.0) and hasoff(y2,0.0):
 		if   near(y1,-1) and near(y2,Ny): name, o1, o2 = "F2", 1, 1
-		elif near(y1, 0) and near(y2,Ny): name, o1, o2 = "DH", 1, 0
+		elif near(y1, 0) and near(y2,Ny): name, o1, o2 = "DH", 0, 1
 		else: name, o1, o2 = "CC", 0, 0
 	elif hasoff(y1,0.5) and hasoff(y2,0.5): name, o1, o2 = "F1", 0.5, 0.5
 	elif hasoff(y1,0.5) and hasoff(y2,0.0): name, o1, o2 = "MW", 0.5, 0.0
-- 
2.43.0


From 3f48de0f22a2b2bbf1799e734c3c040a3d828fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:26 +0000
Subject: [PATCH 041/143] fix: quadrature weights follow the rows of the map
 for both row orders

---
 pixell/curvedsky.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 9066794..1050fff 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -486,7 +486,7 @@ def quad_weights(shape, wcs, pix_tol=1e-6):
 	ny      = shape[-2]+np.sum(minfo.ypad)
 	weights = ducc0.sht.experimental.get_gridweights(minfo.ducc_geo.name, ny)
 	weights = weights[minfo.ypad[0]:len(weights)-minfo.ypad[1]]
-	if minfo.flip: weights = weights[::-1]
+	if minfo.flip[0]: weights = weights[::-1]
 	weights/= minfo.ducc_geo.nx
 	return weights
 
@@ -828,8 +828,9 @@ def map2alm_cyl(map, alm=None, ainfo=None, minfo=None, lmax=None, spin=[0,2], we
 			weights/= minfo.ducc_geo.nx
 		else:
 			weights = map.pixsizemap(separable=True, broadcastable=True)[:,0]
-			if minfo.flip: weights = weights[::-1]
+			if minfo.flip[0]: weights = weights[::-1]
 		weights = weights.astype(map.dtype, copy=False)
+	elif minfo.flip[0]: weights = weights[::-1]
 	# Loop over pre-pre-dimensions. ducc usually doesn't do anything clever with
 	# these, so looping in python is cheap
 	for I in utils.nditer(map.shape[:-3]):
-- 
2.43.0


From 017299ab94d14cc84ad8d11e3ea5cdf9889c338b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:26 +0000
Subject: [PATCH 042/143] fix: map2alm passes on niter to the general method

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 1050fff..784d530 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -297,7 +297,7 @@ def map2alm(map, alm=None, lmax=None, spin=[0,2], deriv=False, adjoint=False,
 		if verbose: print("method: pos")
 		return map2alm_general(map, alm, ainfo=ainfo, lmax=lmax, spin=spin, deriv=deriv, copy=copy,
 			verbose=verbose, adjoint=adjoint, nthread=nthread, epsilon=epsilon,
-			locinfo=locinfo, weights=weights)
+			locinfo=locinfo, weights=weights, niter=niter)
 	else:
 		raise ValueError("Unrecognized alm2map method '%s'" % str(method))
 
-- 
2.43.0


From 30c31865cf22201acc054786022ed2fa06e1c011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:26 +0000
Subject: [PATCH 043/143] fix: alm2map_adjoint with deriv uses the same sign of
 the dec derivative as alm2map

---
 pixell/curvedsky.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 784d530..bb02012 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -887,6 +887,7 @@ def alm2map_raw_2d(alm, map, ainfo=None, spin=[0,2], deriv=False, copy=False, ve
 	# pre-dimentions are map.shape[:-3]
 	for I in utils.nditer(map_full.shape[:-3]):
 		if deriv:
+			if adjoint: map_full[I+(0,)] *= -1
 			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
 			# Flip sign of theta derivative to get dec derivative
 			map_full[I+(0,)] *= -1
@@ -923,6 +924,7 @@ def alm2map_raw_cyl(alm, map, ainfo=None, minfo=None, spin=[0,2], deriv=False, c
 	# dimensions, so this outermost loop usually does nothing
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
+			if adjoint: map_full[I+(0,)] *= -1
 			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
 			# Flip sign of theta derivative to get dec derivative
 			map_full[I+(0,)] *= -1
@@ -977,6 +979,7 @@ def alm2map_raw_general(alm, map, loc, ainfo=None, spin=[0,2], deriv=False, copy
 	# Iterate over all the predimensions.
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
+			if adjoint: map_full[I+(0,)] *= -1
 			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
 			# Flip sign of theta derivative to get dec derivative
 			map_full[I+(0,)] *= -1
-- 
2.43.0


From b8ac365438cec39bb4a2d3ff154901b1be324aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:26 +0000
Subject: [PATCH 044/143] fix: map2alm falls back on pixel areas for grids ducc
 has no weights for

---
 pixell/curvedsky.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index bb02012..4e6fba5 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -481,7 +481,7 @@ def quad_weights(shape, wcs, pix_tol=1e-6):
 	weights[ny] where ny is shape[-2]. For cases where quadrature weights aren't available,
 	it's a pretty good approximation to just use the pixel area."""
 	minfo = analyse_geometry(shape, wcs, tol=pix_tol)
-	if minfo.ducc_geo.name is None:
+	if minfo.ducc_geo is None or minfo.ducc_geo.name in ["MW","MWflip"]:
 		raise ValueError("Quadrature weights not available for geometry %s,%s" % (str(shape),str(wcs)))
 	ny      = shape[-2]+np.sum(minfo.ypad)
 	weights = ducc0.sht.experimental.get_gridweights(minfo.ducc_geo.name, ny)
@@ -821,7 +821,7 @@ def map2alm_cyl(map, alm=None, ainfo=None, minfo=None, lmax=None, spin=[0,2], we
 	minfo = analyse_geometry(map.shape, map.wcs, tol=pix_tol)
 	# Get our weights, approximate or not
 	if weights is None:
-		if minfo.ducc_geo is not None and minfo.ducc_geo.name is not None:
+		if minfo.ducc_geo is not None and minfo.ducc_geo.name not in ["MW","MWflip"]:
 			ny      = map.shape[-2]+np.sum(minfo.ypad)
 			weights = ducc0.sht.experimental.get_gridweights(minfo.ducc_geo.name, ny)
 			weights = weights[minfo.ypad[0]:len(weights)-minfo.ypad[1]]
-- 
2.43.0


From 0c0402944b19fb116a61a4dde5640f6459973b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:54 +0000
Subject: [PATCH 045/143] fix: alm2map_pos accepts right ascensions more than
 one turn away

---
 pixell/curvedsky.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 4e6fba5..e2e5199 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -189,8 +189,7 @@ def alm2map_pos(alm, pos=None, loc=None, ainfo=None, map=None, spin=[0,2], deriv
 		# This should use less memory than writing loc[:,0] = np.pi/2-loc[:,0]
 		loc[...,0] *= -1
 		loc[...,0] += np.pi/2
-		# Should use rewind here, but this is more efficient
-		loc[loc[...,1]<0,1] += 2*np.pi
+		loc[...,1] %= 2*np.pi
 		# Support arbitrary pre-dimensions for loc (post-dimensions for pos)
 	lpre = loc.shape[:-1]
 	loc  = loc.reshape(-1,2)
-- 
2.43.0


From cd244aedc04d578865278c23ba84cc689735b137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:12 +0000
Subject: [PATCH 046/143] fix: sym_compress and sym_expand work for matrix axes
 other than the first two

---
 pixell/powspec.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pixell/powspec.py b/pixell/powspec.py
index b9d80d9..24bd69a 100644
--- a/pixell/powspec.py
+++ b/pixell/powspec.py
@@ -12,12 +12,12 @@ def sym_compress(mat, which=None, n=None, scheme=None, axes=[0,1], combined=Fals
 	elements). The 'axes' argument indicates which axes to operate on."""
 	if n is None: n = mat.shape[axes[0]]*(mat.shape[axes[0]]+1)//2
 	if which==None: which = compressed_order(n, scheme)
-	m = np.rollaxis(np.rollaxis(mat, axes[1]), axes[0])
+	m = np.moveaxis(mat, axes, [0,1])
 	if combined:
 		res = np.array([m[w[0],w[1]]+m[w[1],w[0]]*(w[1]!=w[0]) for w in which])
 	else:
 		res = np.array([m[w[0],w[1]] for w in which])
-	return np.rollaxis(res, 0, axes[0])
+	return np.moveaxis(res, 0, min(a%mat.ndim for a in axes))
 
 def sym_expand(mat, which=None, ncomp=None, scheme=None, axis=0, combined=False):
 	"""The inverse of sym_compress. Expands a flat array of numbers
@@ -33,7 +33,8 @@ def sym_expand(mat, which=None, ncomp=None, scheme=None, axis=0, combined=False)
 		res[w[0],w[1]] = m[i]
 		if w[0] != w[1]:
 			res[w[1],w[0]] = m[i]
-	return np.rollaxis(np.rollaxis(res, 1, axis), 0, axis)
+	axis = axis%mat.ndim
+	return np.moveaxis(res, [0,1], [axis,axis+1])
 
 def sym_expand_camb_full_lens(a):
 	# This complicated ordering doesn't fit into any of our expansion patterns,
-- 
2.43.0


From d0cf2c3b7a8b35ea8be493c6cdaee365f601a0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:12 +0000
Subject: [PATCH 047/143] fix: sym_expand with combined=True inverts
 sym_compress with combined=True

---
 pixell/powspec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/powspec.py b/pixell/powspec.py
index 24bd69a..87c6923 100644
--- a/pixell/powspec.py
+++ b/pixell/powspec.py
@@ -30,9 +30,9 @@ def sym_expand(mat, which=None, ncomp=None, scheme=None, axis=0, combined=False)
 	res = np.zeros(shape,dtype=mat.dtype)
 	for i, w in enumerate(which):
 		val = m[i]/2 if combined and w[0]!=w[1] else m[i]
-		res[w[0],w[1]] = m[i]
+		res[w[0],w[1]] = val
 		if w[0] != w[1]:
-			res[w[1],w[0]] = m[i]
+			res[w[1],w[0]] = val
 	axis = axis%mat.ndim
 	return np.moveaxis(res, [0,1], [axis,axis+1])
 
-- 
2.43.0


From ff7e5f58175319c50e95397da60694e7028eaefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:12 +0000
Subject: [PATCH 048/143] fix: eigpow compares eigenvalues with the largest one
 of the same matrix

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 1c376b8..03541a9 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2602,7 +2602,7 @@ def eigpow(A, e, axes=[-2,-1], rlim=None, alim=None):
 		if e < 0:
 			aE = np.abs(E)
 			if A.ndim > 2:
-				mask |= (aE < np.max(aE,1)[:,None]*rlim) | (aE < alim)
+				mask |= (aE < np.max(aE,-1)[...,None]*rlim) | (aE < alim)
 			else:
 				mask |= (aE < np.max(aE)*rlim) | (aE < alim)
 		E[~mask] **= e
-- 
2.43.0


From ea651cdb7c472df7dad9f0e0166a7d40c79a45c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:12 +0000
Subject: [PATCH 049/143] fix: utils.solve works for stacks of vectors and does
 not modify its input

---
 pixell/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pixell/utils.py b/pixell/utils.py
index 03541a9..745cc3e 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2558,12 +2558,16 @@ def solve(A, b, axes=[-2,-1], masked=False):
 	baxes = axes if A.ndim == b.ndim else [axes[0]%A.ndim]
 	fA = partial_flatten(A, axes)
 	fb = partial_flatten(b, baxes)
+	# numpy takes b to be matrices unless it is 1d
+	if len(baxes) == 1: fb = fb[...,None]
 	if masked:
+		fb   = fb.copy()
 		mask = fA[...,0,0] != 0
 		fb[~mask] = 0
 		fb[mask]  = np.linalg.solve(fA[mask],fb[mask])
 	else:
 		fb = np.linalg.solve(fA,fb)
+	if len(baxes) == 1: fb = fb[...,0]
 	return partial_expand(fb, b.shape, baxes)
 
 def eigpow(A, e, axes=[-2,-1], rlim=None, alim=None):
-- 
2.43.0


From 9d0f0963b25b3679f5b01e9e6bddb490171bfb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:12 +0000
Subject: [PATCH 050/143] fix: smooth_spectrum uses the weights it is given

---
 pixell/enmap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 34e5b8b..5fe187d 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1912,6 +1912,7 @@ def smooth_spectrum(ps, kernel="gauss", weight="mode", width=1.0):
 	else:
 		tmp = np.atleast_2d(weight)
 		assert tmp.shape[-1] == W.shape[-1], "Spectrum weight must have the same length as spectrum"
+		W[:] = tmp
 	pWK = _convolute_sym(pflat*W, K)
 	WK  = _convolute_sym(W, K)
 	res = pWK/WK
-- 
2.43.0


From b0a9edf88829a26e43eea491cc17ceb01ed1f5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:12 +0000
Subject: [PATCH 051/143] fix: calc_ps2d does not confuse different views of
 the same memory

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 5fe187d..9772309 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1945,7 +1945,7 @@ def calc_ps2d(harm, harm2=None):
 	harm2 = np.asanyarray(harm2) if harm2 is not None else harm
 	# Unify dtypes
 	dtype = np.result_type(harm.real, harm2.real)
-	def getaddr(a): return a.__array_interface__["data"][0]
+	def getaddr(a): return (a.__array_interface__["data"][0], a.strides)
 	harm, harm2 = [samewcs(a, harm) for a in np.broadcast_arrays(harm, harm2)]
 	# We set the writable flags not because we intend to write, but to silience a
 	# false positive warning from numpy
-- 
2.43.0


From 4f6315891be299e9233494abf7a74cb66514573e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:12 +0000
Subject: [PATCH 052/143] fix: spec2flat_corr puts zero lag in the corner for
 odd sizes and leaves its input alone

---
 pixell/enmap.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 9772309..913913f 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1862,7 +1862,7 @@ def spec2flat_corr(shape, wcs, cov, exp=1.0, border="constant"):
 	oshape = cov.shape[:-1] + tuple(shape)[-2:]
 	if cov.ndim == 1: cov = cov[None,None]
 	if exp != 1.0: cov = multi_pow(cov, exp)
-	cov[~np.isfinite(cov)] = 0
+	cov  = np.where(np.isfinite(cov), cov, 0)
 	# Convert power spectrum to correlation
 	ext  = extent(shape,wcs)
 	rmax = np.sum(ext**2)**0.5
@@ -1877,8 +1877,8 @@ def spec2flat_corr(shape, wcs, cov, exp=1.0, border="constant"):
 	dpos -= dpos[:,None,None,dpos.shape[-2]//2,dpos.shape[-1]//2]
 	ipos = np.arccos(np.cos(dpos[0])*np.cos(dpos[1]))*nr/rmax
 	corr2d = utils.interpol(corrfun, ipos.reshape((-1,)+ipos.shape), border=border, order=1)
-	corr2d = np.roll(corr2d, -corr2d.shape[-2]//2, -2)
-	corr2d = np.roll(corr2d, -corr2d.shape[-1]//2, -1)
+	corr2d = np.roll(corr2d, -(corr2d.shape[-2]//2), -2)
+	corr2d = np.roll(corr2d, -(corr2d.shape[-1]//2), -1)
 	corr2d = ndmap(corr2d, wcs)
 	return fft(corr2d).real * np.prod(shape[-2:])**0.5
 
-- 
2.43.0


From 0a37c16fc32fc831456362f81da92bd172877c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:32 +0000
Subject: [PATCH 053/143] fix: spec2flat with oversample keeps the geometry of
 the map

---
 pixell/enmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 913913f..fac6354 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1855,7 +1855,8 @@ def spec2flat(shape, wcs, cov, exp=1.0, border="constant", oversample=1, smooth=
 	res = ndmap(utils.interpol(cov, np.reshape(ls,(1,)+ls.shape),border=border, order=1),wcs)
 	res = downgrade(res, oversample)
 	res = res.reshape(oshape[:-2]+res.shape[-2:])
-	return res
+	# The averaging over sub-modes does not change the geometry of the map
+	return ndmap(res, wcs)
 
 def spec2flat_corr(shape, wcs, cov, exp=1.0, border="constant"):
 	cov    = np.asarray(cov)
-- 
2.43.0


From fda454ff0ca8b55bb85db3dab436f332a348b661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:39 +0000
Subject: [PATCH 054/143] fix: vec_angdist of parallel and antiparallel vectors
 is not nan

---
 pixell/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 745cc3e..b25c8b9 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1861,7 +1861,10 @@ def vec_angdist(v1, v2, axis=0):
 	b  = np.sum(v2**2,axis)**0.5
 	c  = np.sum((v1-v2)**2,axis)**0.5
 	mu = np.where(b>=c, c-(a-b), b-(a-c))
-	ang= 2*np.arctan(((((a-b)+c)*mu)/((a+(b+c))*((a-c)+b)))**0.5)
+	# Rounding can make these very slightly negative for (anti)parallel vectors
+	y  = np.maximum(((a-b)+c)*mu, 0)
+	x  = np.maximum((a+(b+c))*((a-c)+b), 0)
+	ang= 2*np.arctan2(y**0.5, x**0.5)
 	return ang
 
 def rotmatrix(ang, raxis, axis=-1, dtype=None):
-- 
2.43.0


From 5465cb7baaf9b96f2d1da5bc480cd9d33245fee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:39 +0000
Subject: [PATCH 055/143] fix: recenter and decenter do not modify the center
 they are given

---
 pixell/coordinates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/coordinates.py b/pixell/coordinates.py
index 037c5c2..d274d3a 100644
--- a/pixell/coordinates.py
+++ b/pixell/coordinates.py
@@ -301,14 +301,14 @@ def recenter(angs, center, restore=False):
 	# lon_from,lat_from,lon_to,lat_to
 	if len(center) == 4: ra0, dec0, ra1, dec1 = center
 	elif len(center) == 2: ra0, dec0, ra1, dec1 = center[0], center[1], center[0]*0, center[1]*0+np.pi/2
-	if restore: ra1 += ra0
+	if restore: ra1 = ra1 + ra0
 	return euler_rot([ra1,dec0-dec1,-ra0], angs, kind="zyz")
 
 def decenter(angs, center, restore=False):
 	"""Inverse operation of recenter."""
 	if len(center) == 4: ra0, dec0, ra1, dec1 = center
 	elif len(center) == 2: ra0, dec0, ra1, dec1 = center[0], center[1], center[0]*0, center[1]*0+np.pi/2
-	if restore: ra1 += ra0
+	if restore: ra1 = ra1 + ra0
 	return euler_rot([ra0,dec1-dec0,-ra1],  angs, kind="zyz")
 
 def nohor(sys): return sys if sys not in ["altaz","tele","bore"] else "icrs"
-- 
2.43.0


From 3871c969c89a08112259e5e8d978e23588786b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:39 +0000
Subject: [PATCH 056/143] fix: transform_raw does not truncate the result for
 integer coordinates

---
 pixell/coordinates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/coordinates.py b/pixell/coordinates.py
index d274d3a..a65e34e 100644
--- a/pixell/coordinates.py
+++ b/pixell/coordinates.py
@@ -144,7 +144,7 @@ def transform_raw(from_sys, to_sys, coords, time=None, site=default_site, bore=N
 	# flatten, so the rest of the code can assume that coordinates are [2,N]
 	# and time is [N]
 	oshape = coords.shape
-	coords= np.ascontiguousarray(coords.reshape(2,-1))
+	coords= np.ascontiguousarray(utils.asfarray(coords.reshape(2,-1)))
 	if time is not None: time = time.reshape(-1)
 	# Perform the actual coordinate transformation. There are three classes of
 	# transformations here:
-- 
2.43.0


From c70de92dcc62d9eaf224ae03047fc5467f5c56cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:39 +0000
Subject: [PATCH 057/143] fix: pole_wrap works for a single position

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index b25c8b9..72139de 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1371,7 +1371,7 @@ def pole_wrap(pos):
 	range are mirrored around the poles, and for each mirroring a phase
 	of pi is added to lon."""
 	pos = pos.copy()
-	lat, lon  = pos # references to columns of pos
+	lat, lon  = pos[0,...], pos[1,...] # references to columns of pos
 	halforbit = np.floor((lat+np.pi/2)/np.pi).astype(int)
 	front     = halforbit % 2 == 0
 	back      = ~front
-- 
2.43.0


From aeb5cfc9af7807596bfb5645deada3f1cfc59e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:39 +0000
Subject: [PATCH 058/143] fix: unwrap_range does not modify its argument

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 72139de..5edfb0e 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1351,7 +1351,7 @@ def unwrap_range(range, nwrap=2*np.pi):
 	doesn't assume that ranges are shorter than half the
 	sky. But it still shortens ranges that are longer than
 	a whole wrapping period."""
-	range = np.asanyarray(range)
+	range = asfarray(range).copy()
 	range[1] -= np.floor((range[1]-range[0])/nwrap)*nwrap
 	range    -= np.floor(range[1,None]/nwrap)*nwrap
 	return range
-- 
2.43.0


From 0f63c00436d29264bb5cd7cf62160497cae2ead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:39 +0000
Subject: [PATCH 059/143] fix: rect2ang returns the length of the vector with
 return_r

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 5edfb0e..74726b6 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1827,7 +1827,7 @@ def rect2ang(rect, zenith=False, axis=0, return_r=False):
 	if zenith: theta = np.arctan2(r,z)
 	else:      theta = np.arctan2(z,r)
 	ang = np.moveaxis(np.array([phi,theta]), 0, axis)
-	return (ang,r) if return_r else ang
+	return (ang,(r**2+z**2)**0.5) if return_r else ang
 
 def angdist(a, b, zenith=False, axis=0):
 	"""Compute the angular distance between a[{ra,dec},...]
-- 
2.43.0


From 6b6cb913666d015a8c6c53835aca265658daef10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:46 +0000
Subject: [PATCH 060/143] fix: date2ctime does not depend on the local time
 zone

---
 pixell/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 74726b6..6a14b05 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1254,9 +1254,9 @@ def nodiag(A):
 	return A
 
 def date2ctime(dstr):
-	import dateutil.parser
+	import dateutil.parser, calendar
 	d = dateutil.parser.parse(dstr, ignoretz=True, tzinfos=0)
-	return time.mktime(d.timetuple())
+	return float(calendar.timegm(d.timetuple()))
 
 def bounding_box(boxes):
 	"""Compute bounding box for a set of boxes [:,2,:], or a
-- 
2.43.0


From 4fc0175de4c33fb656369b7c353ea5077cb939b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:25 +0000
Subject: [PATCH 061/143] fix: bubble and heap distances keep the closest point
 when several share a pixel, and respect rmax

---
 cython/distances_core.c | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/cython/distances_core.c b/cython/distances_core.c
index 276a5fc..a087495 100644
--- a/cython/distances_core.c
+++ b/cython/distances_core.c
@@ -206,9 +206,12 @@ void distance_from_points_bubble(int ny, int nx, double * posmap, inum npoint, d
 		int y = point_y[i], x = point_x[i];
 		inum pix = (inum)y*nx+x;
 		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i], pix_ra[pix], cos(pix_dec[pix]), sin(pix_dec[pix]));
-		pointvec_push(curr, y, x);
-		dists[y*nx+x]   = dist;
-		domains[y*nx+x] = i;
+		// Several points can share a pixel, so keep the closest one
+		if(dist < dists[(inum)y*nx+x]) {
+			pointvec_push(curr, y, x);
+			dists[(inum)y*nx+x]   = dist;
+			domains[(inum)y*nx+x] = i;
+		}
 	}
 
 	inum it = 0;
@@ -290,9 +293,12 @@ void distance_from_points_bubble_separable(int ny, int nx, double * ypos, double
 	for(inum i = 0; i < npoint; i++) {
 		int y = point_y[i], x = point_x[i];
 		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i], xpos[x], pix_cos_dec[y], pix_sin_dec[y]);
-		pointvec_push(curr, y, x);
-		dists[y*nx+x]   = dist;
-		domains[y*nx+x] = i;
+		// Several points can share a pixel, so keep the closest one
+		if(dist < dists[(inum)y*nx+x]) {
+			pointvec_push(curr, y, x);
+			dists[(inum)y*nx+x]   = dist;
+			domains[(inum)y*nx+x] = i;
+		}
 	}
 
 	inum it = 0;
@@ -1032,9 +1038,12 @@ void distance_from_points_bubble_healpix(healpix_info * geo, inum npoint, double
 		double dra  = 2*pi/geo->nx[y];
 		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i],
 				geo->ra0[y]+dra*x, geo->cos_dec[y], geo->sin_dec[y]);
-		pointvec_push(curr, y, x);
-		dists[pix]   = dist;
-		domains[pix] = i;
+		// Several points can share a pixel, so keep the closest one
+		if(dist < dists[pix]) {
+			pointvec_push(curr, y, x);
+			dists[pix]   = dist;
+			domains[pix] = i;
+		}
 	}
 
 	inum it = 0;
@@ -1167,10 +1176,13 @@ void distance_from_points_heap_healpix(healpix_info * geo, inum npoint, double *
 		double dra  = 2*pi/geo->nx[y];
 		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i],
 				geo->ra0[y]+dra*x, geo->cos_dec[y], geo->sin_dec[y]);
-		HeapEntry entry = { dist, y, x };
-		pointheap_push(heap, entry);
-		dists[pix]   = dist;
-		domains[pix] = i;
+		// Several points can share a pixel, so keep the closest one
+		if(dist < dists[pix]) {
+			HeapEntry entry = { dist, y, x };
+			pointheap_push(heap, entry);
+			dists[pix]   = dist;
+			domains[pix] = i;
+		}
 	}
 
 	inum it = 0;
-- 
2.43.0


From 33dee182e7eb210412550649c7649c75fefe4742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:25 +0000
Subject: [PATCH 062/143] fix: cellgrid distances use the actual distance in
 the pixels that hold the points

---
 cython/distances_core.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cython/distances_core.c b/cython/distances_core.c
index a087495..9fe8d69 100644
--- a/cython/distances_core.c
+++ b/cython/distances_core.c
@@ -687,9 +687,16 @@ void distance_from_points_cellgrid(int ny, int nx, double * ypos, double * xpos,
 		int y1 = by*bsize_y, yrel = point_y[i]-y1;
 		int x1 = bx*bsize_x, xrel = point_x[i]-x1;
 		int pixrel = yrel*grid.cells[ci].nx+xrel;
-		pointvec_push(grid.cells[ci].current, yrel, xrel);
-		grid.cells[ci].domains[pixrel] = i;
-		grid.cells[ci].dists[pixrel] = 0;
+		// The point is not necessarily at the center of its pixel, and several points can
+		// share a pixel, so we need the actual distance here, and to keep the closest point
+		inum py = point_y[i], px = point_x[i], pix = py*nx+px;
+		double pix_dec = ypos[separable ? py : pix], pix_ra = xpos[separable ? px : pix];
+		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i], pix_ra, cos(pix_dec), sin(pix_dec));
+		if(dist < grid.cells[ci].dists[pixrel]) {
+			pointvec_push(grid.cells[ci].current, yrel, xrel);
+			grid.cells[ci].domains[pixrel] = i;
+			grid.cells[ci].dists[pixrel] = dist;
+		}
 	}
 	// Initialize them
 	#pragma omp parallel for
-- 
2.43.0


From 172828cc784158eb65ef4d8ad45ebeff4c44d6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:25 +0000
Subject: [PATCH 063/143] fix: slicing a delayed fits map does not modify the
 data it slices

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index fac6354..b3de601 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3020,7 +3020,7 @@ class ndmap_proxy_fits(ndmap_proxy):
 				if ind >= 0 and ind < self.shape[i]:
 					signs[(slice(None),)*i + (ind,)] *= -1
 			sel1, sel2 = utils.split_slice(sel, [len(self.shape)-2,2])
-			res *= signs[sel1][...,None,None]
+			res = res*signs[sel1][...,None,None].astype(res.dtype)
 		return ndmap(fix_endian(res), wcs)
 	def __repr__(self): return "ndmap_proxy_fits(fname=%s, shape=%s, wcs=%s, dtype=%s)" % (str(self.fname), str(self.shape), str(self.wcs), str(self.dtype))
 
@@ -3044,7 +3044,7 @@ def fix_endian(map):
 	"""Make endianness of array map match the current machine.
 	Returns the result."""
 	if map.dtype.byteorder not in ['=','<' if sys.byteorder == 'little' else '>']:
-		map = map.byteswap(True).view(map.dtype.newbyteorder())
+		map = map.byteswap().view(map.dtype.newbyteorder())
 	map.dtype = utils.fix_dtype_mpi4py(map.dtype)
 	return map
 
-- 
2.43.0


From 2d72c967f1ce27705e6ceefe487299bddec94f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:25 +0000
Subject: [PATCH 064/143] fix: read_hdf_geometry handles string wcs entries,
 like read_hdf

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index b3de601..e6eb535 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2920,7 +2920,7 @@ def read_hdf_geometry(fname, address=None):
 		hwcs = hfile["wcs"]
 		header = astropy.io.fits.Header()
 		for key in hwcs:
-			header[key] = hwcs[key][()]
+			header[key] = fix_python3(hwcs[key][()])
 		wcs   = wcsutils.WCS(header).sub(2)
 		shape = hfile["data"].shape
 	return shape, wcs
-- 
2.43.0


From e94866d404ebd72637e62943d875980d771dc926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:25 +0000
Subject: [PATCH 065/143] fix: read_fits_dtype gets the signedness of integer
 maps right

---
 pixell/enmap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index e6eb535..0dd0b23 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2837,8 +2837,11 @@ def read_fits_dtype(fname, hdu=None, quick=True):
 	header = read_fits_header(fname, hdu=hdu, quick=quick)
 	if "BITPIX" not in header: raise KeyError("BITPIX not defined in fits file")
 	bitpix = header["BITPIX"]
-	table  = {-32:np.float32, -64:np.float64, 8:np.int8, 16:np.int16, 32:np.int32, 64:np.int64}
+	table  = {-32:np.float32, -64:np.float64, 8:np.uint8, 16:np.int16, 32:np.int32, 64:np.int64}
 	if bitpix not in table: raise ValueError("Unrecognized BITPIX %d" % bitpix)
+	# Fits represents int8 and the larger unsigned types as the opposite signedness plus an offset
+	shifted= {8:(-2**7,np.int8), 16:(2**15,np.uint16), 32:(2**31,np.uint32), 64:(2**63,np.uint64)}
+	if bitpix in shifted and header.get("BZERO",0) == shifted[bitpix][0]: return shifted[bitpix][1]
 	return table[bitpix]
 
 def write_hdf(fname, emap, address=None, extra={}):
-- 
2.43.0


From 97fe8ae6a3605e434d5be41c75ee5e716553a262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:25 +0000
Subject: [PATCH 066/143] fix: read_map_geometry applies the whole slice in the
 file name, like read_map

---
 pixell/enmap.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 0dd0b23..21e03b0 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2719,8 +2719,10 @@ def read_map_geometry(fname, fmt=None, hdu=None, address=None):
 	else:
 		raise ValueError
 	if len(toks) > 1:
-		sel = eval("utils.sliceeval"+":".join(toks[1:]))[-2:]
-		shape, wcs = slice_geometry(shape, wcs, sel)
+		sel = eval("utils.sliceeval"+":".join(toks[1:]))
+		sel1, sel2  = utils.split_slice(sel, [len(shape)-2,2])
+		pshape, wcs = slice_geometry(shape[-2:], wcs, sel2)
+		shape = np.broadcast_to(False, shape[:-2])[sel1].shape + tuple(pshape)
 	return shape, wcs
 
 def read_map_dtype(fname, fmt=None, hdu=None, address=None):
-- 
2.43.0


From d31445102b8fcbeed0a244f50a5cc170c99a552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:25 +0000
Subject: [PATCH 067/143] fix: reading a map with a box respects the mode
 argument

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 21e03b0..68267c1 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2954,7 +2954,7 @@ def read_helper(data, sel=None, box=None, pixbox=None, geometry=None, wrap="auto
 	"""Helper function for map reading. Handles the slicing, sky-wrapping and capping, etc."""
 	if delayed: return data # Slicing not supported yet when we want to return a proxy object
 	if geometry is not None: data = extract(data, *geometry, wrap=wrap)
-	if box      is not None: data = submap(data, box, wrap=wrap, recenter=recenter)
+	if box      is not None: data = submap(data, box, mode=mode, wrap=wrap, recenter=recenter)
 	if pixbox   is not None: data = extract_pixbox(data, pixbox, wrap=wrap, recenter=recenter)
 	if sel      is not None: data = data[sel]
 	data = data[:] # Get rid of the wrapper if it still remains
-- 
2.43.0


From 68a2c295dc29b861f1ee9ac846950f5d30e0630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:25 +0000
Subject: [PATCH 068/143] fix: TileMap.with_tiles handles different numbers of
 active tiles

---
 pixell/tilemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index b126e64..2644d54 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -116,7 +116,7 @@ class TileMap(np.ndarray):
 		should be considerably faster."""
 		try: active = other.geometry.active
 		except AttributeError: active = _parse_active(other, self.ntile)
-		if np.all(active == self.geometry.active):
+		if np.array_equal(active, self.geometry.active):
 			return self.copy()
 		# Construct the new geometry
 		if strict: new_geom = self.geometry.copy(active    =active)
-- 
2.43.0


From b95cb94787a15d3ed1228881564b7da8a57e9218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:25 +0000
Subject: [PATCH 069/143] fix: TileGeometry.compatible considers the wcs, as
 documented

---
 pixell/tilemap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index 2644d54..e90c2e3 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -395,6 +395,7 @@ class TileGeometry:
 		0. Not compatible."""
 		if tuple(self.shape[-2:]) != tuple(other.shape[-2:]): return 0
 		if tuple(self.tile_shape) != tuple(other.tile_shape): return 0
+		if not wcsutils.equal(self.wcs, other.wcs): return 0
 		if self.nactive == other.nactive and np.all(self.active == other.active): return 2
 		else: return 1
 
-- 
2.43.0


From d3f28e4da95ea54a5853cfba2de83823f1f8fb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:25 +0000
Subject: [PATCH 070/143] fix: FakeCommunicator.Allgatherv argument name

---
 pixell/mpiutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/mpiutils.py b/pixell/mpiutils.py
index 5d28516..42d6067 100644
--- a/pixell/mpiutils.py
+++ b/pixell/mpiutils.py
@@ -11,7 +11,7 @@ class FakeCommunicator:
         _unbuf(recvbuf)[()] = _unbuf(sendbuf)
     def Allgather(self, sendbuf, recvbuf):
         _unbuf(recvbuf)[0] = _unbuf(sendbuf)
-    def Allgatherv(self, sendbuf, redvbuf):
+    def Allgatherv(self, sendbuf, recvbuf):
         _unbuf(recvbuf)[()] = _unbuf(sendbuf)
     def Alltoallv(self, sendbuf, recvbuf):
         _unbuf(recvbuf)[()] = _unbuf(sendbuf)
-- 
2.43.0


From f50ab4934615dcb19030dedbcd2df1f6dbe7059c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:25 +0000
Subject: [PATCH 071/143] fix: multimap coordinate map functions accept and
 pass on their arguments

---
 pixell/multimap.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index b7002bb..de95482 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -37,11 +37,11 @@ class ndmaps(np.ndarray):
 	@property
 	def maps(self):
 		return _map_view(self)
-	def posmap(self, safe=True, corner=False, separable="auto", dtype=np.float64): return posmap(self.geometries, corner=corner, separable=separable, dtype=dtype)
+	def posmap(self, safe=True, corner=False, separable="auto", dtype=np.float64): return posmap(self.geometries, safe=safe, corner=corner, separable=separable, dtype=dtype)
 	def pixmap(self, dtype=np.float64): return pixmap(self.geometries, dtype=dtype)
 	def pixsize(self, dtype=np.float64): return pixsize(self.geometries, dtype=dtype)
 	def lmap(self, oversample=1, dtype=np.float64): return lmap(self.geometries, oversample=oversample, dtype=dtype)
-	def modlmap(self, oversample=1, dtype=np.float64): return modlmap(self.geometries, oversample=oversample)
+	def modlmap(self, oversample=1, dtype=np.float64): return modlmap(self.geometries, oversample=oversample, dtype=dtype)
 	def modrmap(self, ref="center", safe=True, corner=False, dtype=np.float64): return modrmap(self.geometries, ref=ref, safe=safe, corner=corner, dtype=dtype)
 
 class _map_view:
@@ -127,23 +127,23 @@ def posmap(geometries, safe=True, corner=False, separable="auto", dtype=np.float
 
 def pixmap(geometries, dtype=np.float64):
 	"""Return a multimap containing the pixel map for the given geometries"""
-	return multimap([enmap.pixmap(*geo, dtype=dtype) for geo in geometries])
+	return multimap([enmap.pixmap(*geo).astype(dtype) for geo in geometries])
 
-def lmap(geometries, dtype=np.float64):
+def lmap(geometries, oversample=1, dtype=np.float64):
 	"""Return a mapmultimap of all the wavenumbers in the fourier transform
 	of a map with the given geometries"""
-	return multimap([enmap.lmap(*geo).astype(dtype) for geo in geometries])
+	return multimap([enmap.lmap(*geo, oversample=oversample).astype(dtype) for geo in geometries])
 
-def modlmap(geometries, dtype=np.float64):
+def modlmap(geometries, oversample=1, dtype=np.float64):
 	"""Return a mapmultimap of all the abs wavenumbers in the fourier transform
 	of a map with the given geometries"""
-	return multimap([enmap.modlmap(*geo).astype(dtype) for geo in geometries])
+	return multimap([enmap.modlmap(*geo, oversample=oversample).astype(dtype) for geo in geometries])
 
 def modrmap(geometries, ref="center", safe=True, corner=False, dtype=np.float64):
 	"""Return a multimap where each entry is the distance from center
 	of that entry. Results are returned in radians, and if safe is true
 	(default), then sharp coordinate edges will be avoided."""
-	return multimap([enmap.modrmap(*geo, ref=ref, safe=safe).astype(dtype) for geo in geometries])
+	return multimap([enmap.modrmap(*geo, ref=ref, safe=safe, corner=corner).astype(dtype) for geo in geometries])
 
 def pixsize(geometries, dtype=np.float64):
 	return np.array([enmap.pixsize(*geo).astype(dtype) for geo in geometries])
-- 
2.43.0


From 2c6c4bc239a8d0341264d9e0d21aebf24e4bc71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:25 +0000
Subject: [PATCH 072/143] fix: multimap.full with a separate value for each
 component

---
 pixell/multimap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index de95482..a34274a 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -118,7 +118,7 @@ def full(geometries, val, dtype=None):
 	omaps= ndmaps(flat, geometries)
 	# Fill with target values
 	for i, map in enumerate(omaps.maps):
-		map[:] = val[...,i]
+		map[:] = val[...,i][...,None,None]
 	return omaps
 
 def posmap(geometries, safe=True, corner=False, separable="auto", dtype=np.float64):
-- 
2.43.0


From 32cede4beaf1af64c278e8f895d10c9a799a93a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:25 +0000
Subject: [PATCH 073/143] fix: redistribute unpacks multiple input and output
 boxes in the order they were sent

---
 pixell/utils.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 6a14b05..8645fe4 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1551,15 +1551,18 @@ def redistribute(iarrs, iboxes, oboxes, comm, wrap=0):
 
 	comm.Alltoallv((sendbuf, sbufinfo), (recvbuf,rbufinfo))
 
-	# Copy out the result
+	# Copy out the result. Each task sends us its data with our boxes as
+	# the outer loop and its own boxes as the inner one
 	off = 0
-	for i1 in range(rboxes.shape[0]):
+	for itask in range(len(niarrs)):
 		for i2 in range(rboxes.shape[1]):
-			for rbox in rboxes[i1,i2]:
-				rshape = tuple(sbox_size(rbox))
-				data   = recvbuf[off:off+np.prod(rshape)*presize]
-				oarrs[i2][sbox2slice(rbox)] = data.reshape(preshape + rshape)
-				off += data.size
+			for i1 in range(rboxes.shape[0]):
+				if nimap[i1] != itask: continue
+				for rbox in rboxes[i1,i2]:
+					rshape = tuple(sbox_size(rbox))
+					data   = recvbuf[off:off+np.prod(rshape)*presize]
+					oarrs[i2][sbox2slice(rbox)] = data.reshape(preshape + rshape)
+					off += data.size
 	return oarrs
 
 def sbox_intersect(a,b,wrap=0):
-- 
2.43.0


From 86f27c2854a962ebf3f9564063c00b165960f372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:22 +0000
Subject: [PATCH 074/143] fix: tilemap.redistribute handles active tiles in any
 order

---
 pixell/tilemap.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index e90c2e3..0968ca8 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -462,7 +462,10 @@ def redistribute(imap, comm, active=None, omap=None):
 	iflat     = np.ascontiguousarray(imap.T).reshape(-1)
 	send_sizes= np.sum(omask*isizes,1)
 	send_offs = utils.cumsum(send_sizes)
-	send_buf  = [iflat[ioffs[iact]:ioffs[iact]+isizes[iact]] for rank, iact in np.argwhere(omask)]
+	# Tiles are sent in global index order, since the tasks can have them active in different orders
+	iorder    = np.argsort(imap.active)
+	oorder    = np.argsort(omap.active)
+	send_buf  = [iflat[ioffs[iact]:ioffs[iact]+isizes[iact]] for rank, iact in [(r,iorder[j]) for r, j in np.argwhere(omask[:,iorder])]]
 	send_buf  = np.concatenate(send_buf, dtype=iflat.dtype) if len(send_buf) > 0 else np.zeros(0, iflat.dtype)
 	# 5. Build the alltoallv receive info
 	recv_sizes= np.sum(imask*osizes,1)
@@ -474,7 +477,7 @@ def redistribute(imap, comm, active=None, omap=None):
 	# 7. Copy and reduce into flattened output tiles
 	oflat     = np.zeros(omap.size, omap.dtype)
 	rbuf_off  = 0
-	for rank, oact in np.argwhere(imask):
+	for rank, oact in [(r,oorder[j]) for r, j in np.argwhere(imask[:,oorder])]:
 		oflat[ooffs[oact]:ooffs[oact]+osizes[oact]] += recv_buf[rbuf_off:rbuf_off+osizes[oact]]
 		rbuf_off += osizes[oact]
 	del recv_buf
-- 
2.43.0


From a45cbbbdbba503d1665749d9b13c1d49fec865df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:26 +0000
Subject: [PATCH 075/143] fix: wcsutils.equal does not depend on whether the
 coordinate systems have been used yet

---
 pixell/wcsutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/wcsutils.py b/pixell/wcsutils.py
index 46fef59..dd65147 100644
--- a/pixell/wcsutils.py
+++ b/pixell/wcsutils.py
@@ -136,6 +136,8 @@ WCS.__repr__ = describe
 WCS.__str__ = describe
 
 def equal(wcs1, wcs2,flags=1,tol=1e-14):
+	# A wcs that has not been set up yet compares as different from an otherwise equal one that has
+	for wcs in [wcs1, wcs2]: wcs.wcs.set()
 	return wcs1.wcs.compare(wcs2.wcs, flags, tol)
 
 def nobcheck(wcs):
-- 
2.43.0


From 5402d7597b9938147f29d3b5dffcbec9ecb07087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:43 +0000
Subject: [PATCH 076/143] fix: healpix distance transforms work when there are
 no edges

---
 cython/distances.pyx | 23 +++++++++++++++++++----
 pixell/enmap.py      |  2 +-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/cython/distances.pyx b/cython/distances.pyx
index b648b17..5c84d7c 100644
--- a/cython/distances.pyx
+++ b/cython/distances.pyx
@@ -382,8 +382,12 @@ def find_edges_healpix(healpix_info info, mask, flat=True):
 	cdef uint8_t[::1] mask_ = mask
 	nedge = c.find_edges_healpix(info.info, &mask_[0], &edges_raw)
 	# Copy info numpy array
-	cdef int[::1] view = <int[:2*nedge]> edges_raw
-	edges = np.array(view).reshape(2,-1)
+	cdef int[::1] view
+	if nedge > 0:
+		view  = <int[:2*nedge]> edges_raw
+		edges = np.array(view).reshape(2,-1)
+	else:
+		edges = np.zeros((2,0), np.int32)
 	free(edges_raw)
 	if flat:
 		edges = info.off[edges[0]]+edges[1]
@@ -408,8 +412,12 @@ def find_edges_labeled_healpix(healpix_info info, labels, flat=True):
 	cdef int[::1] labels_ = labels.reshape(-1)
 	nedge = c.find_edges_labeled_healpix(info.info, &labels_[0], &edges_raw)
 	# Copy info numpy array
-	cdef int[::1] view = <int[:2*nedge]> edges_raw
-	edges = np.array(view).reshape(2,-1)
+	cdef int[::1] view
+	if nedge > 0:
+		view  = <int[:2*nedge]> edges_raw
+		edges = np.array(view).reshape(2,-1)
+	else:
+		edges = np.zeros((2,0), np.int32)
 	free(edges_raw)
 	if flat:
 		edges = info.off[edges[0]]+edges[1]
@@ -431,6 +439,13 @@ def distance_from_points_healpix(healpix_info info, point_pos, point_pix, rmax=N
 	assert point_pos.ndim == 2 and len(point_pos) == 2, "point_pos must be [{dec,ra},npoint]"
 	# point_pix can be standard 1d or our internal 2d format
 	point_pix = np.asanyarray(point_pix)
+	# Handle case where no points are specified
+	if point_pix.size == 0:
+		if omap is None: omap = np.empty(info.npix, dtype=np.float64)
+		if odomains is None: odomains = np.empty(info.npix, dtype=np.int32)
+		omap[:]     = np.inf if rmax is None else rmax
+		odomains[:] = -1
+		return (omap, odomains) if domains else omap
 	if point_pix.ndim == 1:
 		point_pix = unravel_healpix(info, point_pix)
 	point_pix = point_pix.astype(np.int32, order="C", copy=False)
diff --git a/pixell/enmap.py b/pixell/enmap.py
index 68267c1..cd07e55 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2193,7 +2193,7 @@ def distance_transform_healpix(mask, omap=None, rmax=None, method="heap"):
 		distances.distance_from_points_healpix(info, edge_pos, edge_pix, omap=omap[i], rmax=rmax, method=method)
 	omap = omap.reshape(mask.shape)
 	# Distance is always zero inside mask
-	omap *= mask
+	omap[mask==0] = 0
 	return omap
 
 def labeled_distance_transform_healpix(labels, omap=None, odomains=None, rmax=None, method="heap"):
-- 
2.43.0


From a814e86b0b88ef46dbcd73583a1c507ca3605d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:48 +0000
Subject: [PATCH 077/143] fix: label_multi gives different labels to different
 combinations

---
 pixell/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 8645fe4..145215d 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2033,12 +2033,10 @@ def label_multi(valss):
 
 	Example: label_multi([[0,0,1,1,2],["a","b","b","b","b"]]) → [0,1,2,2,3]"""
 	oinds = 0
-	nprev = 1
 	for vals in valss:
 		# remap arbitrary values in vals to integers in inds
 		uvals, inds = np.unique(vals, return_inverse=True)
-		oinds = oinds*nprev + inds
-		nprev = len(uvals)
+		oinds = oinds*len(uvals) + inds
 	# At this point oinds has unique indices, but there could be gaps.
 	# Remove those
 	oinds = np.unique(oinds, return_inverse=True)[1]
-- 
2.43.0


From b6c336c11597c5c4afc2561a7c73191a5eeb8003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:48 +0000
Subject: [PATCH 078/143] fix: bins2edges ends with the end of the last bin

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 145215d..da18aeb 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2490,7 +2490,7 @@ def edges2bins(edges):
 	return res
 
 def bins2edges(bins):
-	return np.concatenate([bins[:,0],bins[1,-1:]])
+	return np.concatenate([bins[:,0],bins[-1:,1]])
 
 def linbin(n, nbin=None, nmin=None, bsize=None):
 	"""Given a number of points to bin and the number of approximately
-- 
2.43.0


From 9955723a4203072a7dd2a859c392c7a5d5c35933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:48 +0000
Subject: [PATCH 079/143] fix: bin_expand supports leading axes, like bin_data

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index da18aeb..f7d359c 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2545,7 +2545,7 @@ def bin_data(bins, d, op=np.mean):
 def bin_expand(bins, bdata):
 	res = np.zeros(bdata.shape[:-1]+(bins[-1,1],),bdata.dtype)
 	for bi, b in enumerate(bins):
-		res[...,b[0]:b[1]] = bdata[...,bi]
+		res[...,b[0]:b[1]] = bdata[...,bi,None]
 	return res
 
 def is_int_valued(a): return a%1 == 0
-- 
2.43.0


From a7605f57a04adc4d46b4510d875ceab42b8a599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:48 +0000
Subject: [PATCH 080/143] fix: greedy_split works with its default arguments

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index f7d359c..e7d7fde 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1167,7 +1167,7 @@ def fix_zero_strides(a):
 	oarr = np.lib.stride_tricks.as_strided(a, strides=ostrides)
 	return oarr
 
-def greedy_split(data, n=2, costfun=max, workfun=lambda w,x: x if w is None else x+w):
+def greedy_split(data, n=2, costfun=max, workfun=lambda w,x: 0 if x is None else x+w):
 	"""Given a list of elements data, return indices that would
 	split them it into n subsets such that cost is approximately
 	minimized. costfun specifies which cost to minimize, with
-- 
2.43.0


From 7337b0d49ae54bea75f2e2379252b31f862859b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:48 +0000
Subject: [PATCH 081/143] fix: addaxes and delaxes work with current numpy

---
 pixell/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index e7d7fde..9ac6bae 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -484,7 +484,7 @@ def addaxes(a, axes):
 	axes = np.sort(axes)[::-1]
 	inds = [slice(None) for i in a.shape]
 	for ax in axes: inds.insert(ax, None)
-	return a[inds]
+	return a[tuple(inds)]
 
 def delaxes(a, axes):
 	axes = np.array(axes,int)
@@ -492,7 +492,7 @@ def delaxes(a, axes):
 	axes = np.sort(axes)[::-1]
 	inds = [slice(None) for i in a.shape]
 	for ax in axes: inds[ax] = 0
-	return a[inds]
+	return a[tuple(inds)]
 
 class flatview:
 	"""Produce a read/writable flattened view of the given array,
-- 
2.43.0


From e78a70b4435c46a378cd2c903d4bad411d0bb51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:48 +0000
Subject: [PATCH 082/143] fix: point_in_polygon handles points level with a
 vertex

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 9ac6bae..0d5cdd6 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2139,7 +2139,7 @@ def point_in_polygon(points, polys):
 		x2, y2 = verts[...,i,:].T
 		with nowarn():
 			x = -y1*(x2-x1)/(y2-y1) + x1
-		ncross += ((y1*y2 < 0) & (x > 0)).T
+		ncross += (((y1 > 0) != (y2 > 0)) & (x > 0)).T
 	return ncross.T % 2 == 1
 
 def poly_edge_dist(points, polygons):
-- 
2.43.0


From c83a3831adc54a010824e83647385127903173cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:48 +0000
Subject: [PATCH 083/143] fix: preflat and postflat with negative number of
 dimensions

---
 pixell/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 0d5cdd6..01c45f4 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1123,14 +1123,14 @@ def preflat(a, n):
 	"""Flatten the first n dimensions of a. If n is negative,
 	flatten all but the last -n dimensions."""
 	a = np.asanyarray(a)
-	if n < 0: n = a.ndim-n
+	if n < 0: n = a.ndim+n
 	return a.reshape((-1,)+a.shape[n:])
 
 def postflat(a, n):
 	"""Flatten the last n dimensions of a. If n is negative,
-	flatten all but the last -n dimensions."""
+	flatten all but the first -n dimensions."""
 	a = np.asanyarray(a)
-	if n < 0: n = a.ndim-n
+	if n < 0: n = a.ndim+n
 	return a.reshape(a.shape[:a.ndim-n]+(-1,))
 
 def between_angles(a, range, period=2*np.pi):
-- 
2.43.0


From 4848165b16379812e7486a992bdd6b8e1c981055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:48 +0000
Subject: [PATCH 084/143] fix: range_sub handles empty ranges and empty results

---
 pixell/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 01c45f4..e2ddcd2 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -531,7 +531,7 @@ class nowarn:
 def dedup(a):
 	"""Removes consecutive equal values from a 1d array, returning the result.
 	The original is not modified."""
-	return a[np.concatenate([[True],a[1:]!=a[:-1]])]
+	return a[np.concatenate([np.ones(min(len(a),1),bool),a[1:]!=a[:-1]])]
 
 def interpol(arr, inds, out=None, mode="spline", border="nearest",
 		order=3, cval=0.0, epsilon=None, ip=None):
@@ -961,7 +961,7 @@ def range_sub(a,b, mapping=False):
 			abmap.append(len(c))
 			rmap.append(rainds[ai])
 			c.append(r)
-		else:
+		elif pstart > a[ai,0]:
 			# If b extended beyond the end of a, then
 			# we need to consider it again for the next a,
 			# so undo the previous increment. This may lead to
@@ -970,7 +970,7 @@ def range_sub(a,b, mapping=False):
 			bi -= 1
 		# And advance to the next range in a
 		ai += 1
-	c = np.array(c)
+	c = np.array(c) if len(c) > 0 else a[:0]
 	# Remove duplicates if necessary
 	abmap=dedup(np.array(abmap))
 	rmap = np.array(rmap)
-- 
2.43.0


From 10ebe0f9ad7013a6b8cee52f36b9892f81d5b672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:48 +0000
Subject: [PATCH 085/143] fix: nditer does not yield indices for empty arrays

---
 pixell/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/utils.py b/pixell/utils.py
index e2ddcd2..0c541ee 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -3443,6 +3443,7 @@ def nditer(shape, axes=None):
 	axes = axes[::-1] # will iterate backwards below
 	I = [slice(None)]*ndim
 	for ax in axes: I[ax] = 0
+	if any(shape[ax] == 0 for ax in axes): return
 	while True:
 		yield tuple(I)
 		for ax in axes:
-- 
2.43.0


From 4dd2fa4b57d66eba1c063c55d2752cc54d6c70e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:48 +0000
Subject: [PATCH 086/143] fix: contains and find_any accept empty lists of
 values

---
 pixell/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 0c541ee..e48d9ea 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -106,7 +106,7 @@ def streq(x, s):
 
 def find(array, vals, default=None):
 	"""Return the indices of each value of vals in the given array."""
-	if np.asarray(vals).size == 0: return []
+	if np.asarray(vals).size == 0: return np.zeros(np.shape(vals), int)
 	array   = np.asarray(array)
 	order   = np.argsort(array)
 	cands   = np.minimum(np.searchsorted(array, vals, sorter=order),len(array)-1)
@@ -147,6 +147,7 @@ def contains(array, vals):
 	for any element in array that is also in vals, and False otherwise."""
 	array = np.asarray(array)
 	vals  = np.asarray(vals)
+	if vals.size == 0: return np.zeros(array.shape, bool)
 	vals  = np.sort(vals)
 	inds  = np.searchsorted(vals, array)
 	# If a value would be inserted after the end, it wasn't
-- 
2.43.0


From 704bc6e59b7565f35f56d8d7ede02548aa9fe9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:48 +0000
Subject: [PATCH 087/143] fix: split_esc keeps escaped escape characters

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index e48d9ea..20068dd 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -3549,7 +3549,7 @@ def split_esc(string, delim, esc='\\'):
 	ostr  = ""
 	for i, c in enumerate(string):
 		if inesc:
-			if c != esc: ostr += c
+			ostr += c
 			inesc = False
 		elif c == esc:
 			inesc = True
-- 
2.43.0


From bf905047e310cddb7ccc9902b99386050b325333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:48 +0000
Subject: [PATCH 088/143] fix: expbin does not hang when the last points do not
 fill a bin

---
 pixell/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 20068dd..c78ed0b 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2516,11 +2516,13 @@ def expbin(n, nbin=None, nmin=8, nmax=0):
 	tmp  = np.array(np.exp(np.arange(nbin+1)*np.log(n+1)/nbin)-1,dtype=int)
 	fixed = [tmp[0]]
 	i = 0
-	while i < nbin:
-		for j in range(i+1,nbin+1):
-			if tmp[j]-tmp[i] >= nmin:
-				fixed.append(tmp[j])
-				i = j
+	for j in range(1,nbin+1):
+		if tmp[j]-tmp[i] >= nmin:
+			fixed.append(tmp[j])
+			i = j
+	# The last bin gets what is too little for a bin of its own
+	if len(fixed) == 1: fixed.append(n)
+	fixed[-1] = n
 	# Optionally split too large bins
 	if nmax:
 		tmp = [fixed[0]]
@@ -2530,7 +2532,6 @@ def expbin(n, nbin=None, nmin=8, nmax=0):
 			tmp += [tmp[-1]+dv*(i+1)//nsplit for i in range(nsplit)]
 		fixed = tmp
 	tmp = np.array(fixed)
-	tmp[-1] = n
 	return np.vstack((tmp[:-1],tmp[1:])).T
 
 def bin_data(bins, d, op=np.mean):
-- 
2.43.0


From 15054bc979496adf89103517634cb2a75cef3e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:11 +0000
Subject: [PATCH 089/143] fix: range_sub handles empty ranges among those to
 remove

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index c78ed0b..38214b4 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -954,7 +954,7 @@ def range_sub(a,b, mapping=False):
 				rmap.append(rainds[ai])
 				c.append(r)
 			abmap.append(-rbinds[bi]-1)
-			pstart = b[bi,1]
+			pstart = max(pstart, b[bi,1])
 			bi += 1
 		# Then append what remains
 		r=(pstart,a[ai,1])
-- 
2.43.0


From 88d50f9a5e897f33e8789c61870937976c4b1524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:45 +0000
Subject: [PATCH 090/143] fix: project to the same pixelization but another
 shape

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index cd07e55..8f9618b 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -605,7 +605,7 @@ def project(map, shape, wcs, mode="spline", order=3, border="constant",
 	  one go, ignoring bsize"""
 	# Skip expensive operation if map is compatible
 	if not force:
-		if wcsutils.equal(map.wcs, wcs) and tuple(shape[-2:]) == tuple(shape[-2:]):
+		if wcsutils.equal(map.wcs, wcs) and tuple(map.shape[-2:]) == tuple(shape[-2:]):
 			return map.copy()
 		elif wcsutils.is_compatible(map.wcs, wcs) and border == "constant":
 			return extract(map, shape, wcs, cval=cval)
-- 
2.43.0


From 16d099727bd016bcdadfdf3741716d3ac27ade22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:45 +0000
Subject: [PATCH 091/143] fix: project uses cval above and below the map

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 8f9618b..8676e25 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -628,7 +628,7 @@ def project(map, shape, wcs, mode="spline", order=3, border="constant",
 			y1     = np.min(pix[0]).astype(int)-context
 			y2     = np.max(pix[0]).astype(int)+context+1
 			pix[0]-= y1
-			band   = map.extract_pixbox([[y1,0],[y2,map.shape[-1]]])
+			band   = map.extract_pixbox([[y1,0],[y2,map.shape[-1]]], cval=cval)
 			# Apodize if necessary
 			if context > 1:
 				band = apod(band, width=(context,0), fill="crossfade")
-- 
2.43.0


From 8146c785c3ebd21edad39743765f85f1b61d13f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:45 +0000
Subject: [PATCH 092/143] fix: healpix2map can rotate maps with only spin-0
 components

---
 pixell/reproject.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/reproject.py b/pixell/reproject.py
index 577ec0d..ee04b1d 100644
--- a/pixell/reproject.py
+++ b/pixell/reproject.py
@@ -352,7 +352,8 @@ def healpix2map(iheal, shape=None, wcs=None, lmax=None, out=None, rot=None, spin
 			if rot is not None and iheal.ndim > 1:
 				# Update the polarization to account for the new coordinate system
 				for s, c1, c2 in enmap.spin_helper(spin, iheal.shape[-2]):
-					vals = enmap.rotate_pol(vals, -pos[2], spin=s, comps=[c1,c2-1], axis=-2)
+					if s != 0:
+						vals = enmap.rotate_pol(vals, -pos[2], spin=s, comps=[c1,c2-1], axis=-2)
 			out[...,i1:i2,:] = vals.reshape(vals.shape[:-1]+(i2-i1,-1))
 	else:
 		raise ValueError("Map reprojection method '%s' not recognized" % str(method))
-- 
2.43.0


From 92aba0aa26b4ac66254492cdc3ac551fe1b41808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:45 +0000
Subject: [PATCH 093/143] fix: map2healpix with method spline works when the
 output map is passed

---
 pixell/reproject.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/reproject.py b/pixell/reproject.py
index ee04b1d..48c98dc 100644
--- a/pixell/reproject.py
+++ b/pixell/reproject.py
@@ -202,6 +202,7 @@ def map2healpix(imap, nside=None, lmax=None, out=None, rot=None, spin=[0,2], met
 			nside = restrict_nside(((4*np.pi/ires**2)/12)**0.5, nside_mode)
 		out = np.zeros(imap.shape[:-2]+(12*nside**2,), imap.dtype)
 	npix     = out.shape[-1]
+	nside    = curvedsky.npix2nside(npix)
 	opixsize = 4*np.pi/npix
 	# Might not be safe to go all the way to the Nyquist l, but looks that way to my tests.
 	if lmax is None: lmax = lnyq
-- 
2.43.0


From 4f67c5102d6ceded9846866a9b67464d29a625dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:45 +0000
Subject: [PATCH 094/143] fix: interpolation of integer arrays is not truncated

---
 pixell/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/utils.py b/pixell/utils.py
index 38214b4..e4cbe60 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -608,6 +608,8 @@ class SplineInterpolator:
 		self.border = border
 		if self.mode != "spline": raise ValueError("Unrecognized spline interpolation mode '%s'" % str(mode))
 		arr = np.asanyarray(arr)
+		# Neither spline coefficients nor interpolated values are whole numbers
+		if self.order > 0 and arr.dtype.kind in "biu": arr = arr.astype(np.float64)
 		if self.order > 1:
 			arr = arr.copy()
 			for I in nditer(arr.shape[:npre]):
-- 
2.43.0


From 57d3a3ae9ee70d06bbeb2f227f336478c3cdc40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:50 +0000
Subject: [PATCH 095/143] fix: interpol.build works for functions with any
 number of outputs

---
 pixell/interpol.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pixell/interpol.py b/pixell/interpol.py
index d6aaaf9..7b40e68 100644
--- a/pixell/interpol.py
+++ b/pixell/interpol.py
@@ -172,10 +172,6 @@ def build(func, interpolator, box, errlim, maxsize=None, maxtime=None, return_ob
 				if np.any(np.isnan(ytrue)):
 					raise ValueError("Function to interpolate returned invalid value")
 				err = np.max(np.abs((ytrue-yinter).reshape(ytrue.shape[0],-1)), 1)
-				# Find the worst failure:
-				ytrue_flat = ytrue.reshape(4,-1)
-				yinter_flat= yinter.reshape(4,-1)
-				badi = np.argmax(np.abs((ytrue_flat[2]-yinter_flat[2])))
 				if verbose: print(x.shape, x.size, err/errlim)
 				if any(err > errlim):
 					# Not good enough, so accept improvement
-- 
2.43.0


From 9e5b7e036962924f9f6397b751adeb2d2d24e589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:50 +0000
Subject: [PATCH 096/143] fix: interpol.build output box keeps its upper end

---
 pixell/interpol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/interpol.py b/pixell/interpol.py
index 7b40e68..040ce88 100644
--- a/pixell/interpol.py
+++ b/pixell/interpol.py
@@ -181,7 +181,7 @@ def build(func, interpolator, box, errlim, maxsize=None, maxtime=None, return_ob
 				errs[i] = err
 				# update output box
 				obox[0] = np.minimum(obox[0], np.min(ytrue.reshape(ytrue.shape[0],-1),1))
-				obox[1] = np.maximum(obox[0], np.max(ytrue.reshape(ytrue.shape[0],-1),1))
+				obox[1] = np.maximum(obox[1], np.max(ytrue.reshape(ytrue.shape[0],-1),1))
 			else: nok += 1
 		if nok >= idim: break
 	res = (ip,)
-- 
2.43.0


From 1d445db33526383ecbdb0b35e211440c70363741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:40 +0000
Subject: [PATCH 097/143] fix: interpolation with zero border keeps the
 contributions from inside the array

---
 fortran/interpol.F90 | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fortran/interpol.F90 b/fortran/interpol.F90
index 92c2da8..9b269c8 100644
--- a/fortran/interpol.F90
+++ b/fortran/interpol.F90
@@ -481,10 +481,12 @@ subroutine interpol(idata, ishape, odata, pos, type, order, border, trans)
 				xi = map_border(border, ishape(i), xi)
 				! If we don't map onto a valid point (because we use null-boundaries),
 				! this cell doesn't contribute, so go to the next one
-				if(xi < 0) cycle cloop
+				if(xi < 0) exit
 				dind = dind * n + xi
 			end do
-			if(.not. trans) then
+			if(xi < 0) then
+				continue
+			else if(.not. trans) then
 				! Standard interpolation
 				v = idata(dind+1,:)
 				! Now multiply this value by all the relevant weights, one
@@ -566,10 +568,12 @@ subroutine interpol_deriv(idata, ishape, odata, pos, type, order, border, trans)
 				xi = map_border(border, ishape(i), xi)
 				! If we don't map onto a valid point (because we use null-boundaries),
 				! this cell doesn't contribute, so go to the next one
-				if(xi < 0) cycle cloop
+				if(xi < 0) exit
 				dind = dind * n + xi
 			end do
-			if(.not. trans) then
+			if(xi < 0) then
+				continue
+			else if(.not. trans) then
 				! Standard interpolation
 				v = idata(dind+1,:)
 				! Now multiply this value by all the relevant weights, one
-- 
2.43.0


From f10baa80815c2d7b2e96e8e9ff0f25d6b6293495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:40 +0000
Subject: [PATCH 098/143] fix: derivative of cubic spline interpolation

---
 fortran/interpol.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortran/interpol.F90 b/fortran/interpol.F90
index 9b269c8..87e6b1b 100644
--- a/fortran/interpol.F90
+++ b/fortran/interpol.F90
@@ -372,7 +372,7 @@ pure subroutine calc_weights_deriv(type, order, p, weights, off)
 							if    (x < 0.5) then; weights(j,i) = -2*x
 							elseif(x < 1.5) then; weights(j,i) = -(1.5-x); end if
 						case(3)
-							if    (x < 1.0) then; weights(j,i) = x**2 - x*2/3
+							if    (x < 1.0) then; weights(j,i) = x**2*3/2 - x*2
 							elseif(x < 2.0) then; weights(j,i) = -(2-x)**2/2; end if
 						case(4)
 							if    (x < 0.5) then; weights(j,i) = 2*x * (x**2 * 0.25-0.625d0) + x**2 * 2*x * 0.25
-- 
2.43.0


From a62b3335ebe3f1a907e7aefa64794521f65e10d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:40 +0000
Subject: [PATCH 099/143] fix: transpose of the derivative of interpolation

---
 fortran/interpol.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortran/interpol.F90 b/fortran/interpol.F90
index 87e6b1b..2abf1a7 100644
--- a/fortran/interpol.F90
+++ b/fortran/interpol.F90
@@ -592,11 +592,11 @@ subroutine interpol_deriv(idata, ishape, odata, pos, type, order, border, trans)
 				! Transposed interpolation
 				res = odata(si,:,:)
 				do i = 1, ndim
-					res(i,:) = res(i,:) * weights(inds(i)+1,i)
+					res = res * weights(inds(i)+1,i)
 				end do
 				do j = 1, npre
 					do i = 1, ndim
-						if(weights(j,i) .ne. 0) then
+						if(weights(inds(i)+1,i) .ne. 0) then
 							!$omp atomic
 							idata(dind+1,j) = idata(dind+1,j) + res(j,i) * dweights(inds(i)+1,i)/weights(inds(i)+1,i)
 						end if
-- 
2.43.0


From 1a1c77ac8b1046b6f50dcc1c2c4e1ef7d9560c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:24 +0000
Subject: [PATCH 100/143] fix: nearest neighbor project reads the last row of
 each block

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 8676e25..258d1aa 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -626,7 +626,7 @@ def project(map, shape, wcs, mode="spline", order=3, border="constant",
 			band = map
 		else:
 			y1     = np.min(pix[0]).astype(int)-context
-			y2     = np.max(pix[0]).astype(int)+context+1
+			y2     = np.max(pix[0]).astype(int)+context+2
 			pix[0]-= y1
 			band   = map.extract_pixbox([[y1,0],[y2,map.shape[-1]]], cval=cval)
 			# Apodize if necessary
-- 
2.43.0


From 108fa2cfe6bd8246d90492650b41347a8fda48b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:12 +0000
Subject: [PATCH 101/143] fix: sim_objects and sim_srcs use the requested op
 and pixel window order

---
 pixell/pointsrcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index c039927..2e9027d 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -115,7 +115,7 @@ def sim_objects(shape, wcs, poss, amps, profile, prof_ids=None, omap=None, vmin=
 	assert omap_flat.dtype == dtype, "omap.dtype must be np.float32"
 	assert omap_flat.shape == (ncomp,)+shape[-2:], "omap must be [...,ny,nx], where [ny,nx] agrees with shape, and ... agrees with amps"
 	# Whew! Actually do the work
-	times = srcsim.sim_objects(omap_flat, obj_decs, obj_ras, obj_ys, obj_xs, amps_flat, profile, prof_ids, posmap, vmin, rmax=rmax, separable=separable, transpose=transpose, prof_equi=prof_equi, return_times=True)[1]
+	times = srcsim.sim_objects(omap_flat, obj_decs, obj_ras, obj_ys, obj_xs, amps_flat, profile, prof_ids, posmap, vmin, rmax=rmax, separable=separable, transpose=transpose, prof_equi=prof_equi, op=op, return_times=True)[1]
 	omap = omap_flat.reshape(pre+shape[-2:])
 	# NB! Since we're not padding, this fourier operation will have problems at the edges
 	if pixwin: omap = enmap.apply_window(omap, order=pixwin_order)
@@ -247,7 +247,7 @@ def sim_srcs(shape, wcs, srcs, beam, omap=None, dtype=None, nsigma=5, rmax=None,
 		amps  = amps.reshape(shape[:-2]+(nobj,))
 		# Handle beam = float, in which case a gaussian beam is made
 		beam  = expand_beam(beam, nsigma, rmax)
-		return sim_objects(shape, wcs, poss, amps, beam, omap=omap, vmin=vmin, rmax=rmax, op=op, pixwin=pixwin, pixwin_order=0, separable=separable, cache=cache)
+		return sim_objects(shape, wcs, poss, amps, beam, omap=omap, vmin=vmin, rmax=rmax, op=op_, pixwin=pixwin, pixwin_order=pixwin_order, separable=separable, cache=cache)
 	elif method == "python":
 		return sim_srcs_python(shape, wcs, srcs, beam, omap=omap, dtype=dtype, nsigma=nsigma, rmax=rmax, smul=smul, return_padded=return_padded, pixwin=pixwin, pixwin_order=pixwin_order, op=op, wrap=wrap, verbose=verbose, cache=cache, separable=separable)
 
-- 
2.43.0


From 3095317126eb690ad0367fa557855f5948aea270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:12 +0000
Subject: [PATCH 102/143] fix: a profile is only treated as equi-spaced if all
 its samples are

---
 pixell/pointsrcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 2e9027d..2e769eb 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -125,7 +125,7 @@ def is_equi(r):
 	"""Estimate whether the values r[:] = arange(n)*delta, allowing for
 	fast index calculations. This is just a heuristic, but it is hopefully
 	reliable enough."""
-	return len(r) > 1 and r[0] == 0 and np.allclose(r[-1],(len(r)-1)*r[1])
+	return len(r) > 1 and r[0] == 0 and np.allclose(r, np.arange(len(r))*r[1])
 
 def radial_sum(map, poss, bins, oprofs=None, separable="auto",
 		prof_equi="auto", cache=None, return_times=False):
-- 
2.43.0


From 6c5763debafd0ca19d970ef79e2bbb53af6b33fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:12 +0000
Subject: [PATCH 103/143] fix: radial_sum and radial_bin accept maps that are
 not float32

---
 pixell/pointsrcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 2e769eb..f475d6b 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -158,7 +158,7 @@ def radial_sum(map, poss, bins, oprofs=None, separable="auto",
 	nobj     = len(obj_decs)
 	# map and number of components
 	pre      = map.shape[:-2]
-	map_flat = map.preflat
+	map_flat = np.ascontiguousarray(map.preflat, dtype=dtype)
 	ncomp    = len(map_flat)
 	# bins
 	bins     = np.asarray(bins, dtype=dtype)
-- 
2.43.0


From ec05055b5e490700a20dda00f686418929fe0762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:12 +0000
Subject: [PATCH 104/143] fix: crossmatch returns [0,2] when nothing matches

---
 pixell/pointsrcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index f475d6b..706f8e2 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -483,7 +483,7 @@ def crossmatch(srcs1, srcs2, tol=1*utils.arcmin, safety=4):
 		best  = np.argmin(dists)
 		if dists[best] > tol: continue
 		matches.append([gi, group[best]])
-	matches = np.array(matches)
+	matches = np.array(matches, int).reshape(-1,2)
 	return matches
 
 #### Source parameter I/O ####
-- 
2.43.0


From 8ce2095fbf437be8cafef767af84d32f122bce4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:12 +0000
Subject: [PATCH 105/143] fix: radial_sum includes the last bin

---
 cython/srcsim_core.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index 65af39b..fa1f902 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -630,7 +630,7 @@ int binary_search(int n, float * rs, float r) {
 int equi_search(int n, float * rs, float r) {
 	int i = (int)(r/rs[1]);
 	if(i < 0) return -1;
-	if(r >= n) return n;
+	if(i >= n) return n;
 	return i;
 }
 
@@ -807,7 +807,7 @@ void radial_sum(
 		double * times    // Time taken in the different steps
 	) {
 	// 1. Figure out how far away we need to consider each object
-	float rmax    = rs[nbin-1];
+	float rmax    = rs[nbin];
 	// 2. Loop over each object
 	double t1     = wall_time();
 	#pragma omp parallel for
@@ -825,7 +825,7 @@ void radial_sum(
 				if(separable) { dec = pix_decs[y];      ra = pix_ras[x];      }
 				else          { dec = pix_decs[y*nx+x]; ra = pix_ras[y*nx+x]; }
 				float r = calc_dist(dec, ra, obj_decs[oi], obj_ras[oi]);
-				int i   = equi ? equi_search(nbin, rs, r) : binary_search(nbin, rs, r);
+				int i   = equi ? equi_search(nbin+1, rs, r) : binary_search(nbin+1, rs, r);
 				if(i < 0 || i >= nbin) continue;
 				for(int ci = 0; ci < ncomp; ci++)
 					bins[oi][ci][i] += imap[ci][y*nx+x];
-- 
2.43.0


From 3d502d94d2f45de67e42b52636bac75a4e4970ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:12 +0000
Subject: [PATCH 106/143] fix: objects that wrap around the map are painted
 fully when its size is not a multiple of the cell size

---
 cython/srcsim_core.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index fa1f902..e3897f5 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -141,7 +141,7 @@ void estimate_bounding_box(
 		float * pix_ras,  //
 		int * box         // {y1,y2,x1,x2} in pixels.
 	);
-void pixbox2cellbox(int * pixbox, int csize, int ncy, int ncx, int * cellbox);
+void pixbox2cellbox(int * pixbox, int csize, int ny, int nx, int ncy, int ncx, int * cellbox);
 void wrap_box(int * box, int ny, int nx);
 
 typedef struct IntList { int n, cap; int * vals; } IntList;
@@ -369,7 +369,7 @@ int assign_cells(
 		// This means that the sloppy wrapping we do that doesn't know about
 		// the real wrapping length of the sky will not cover any tile more than
 		// once.
-		pixbox2cellbox(pixbox, csize, ncy, ncx, cellboxes+4*oi);
+		pixbox2cellbox(pixbox, csize, ny, nx, ncy, ncx, cellboxes+4*oi);
 		wrap_box(cellboxes+4*oi, ncy, ncx);
 	}
 	// 3. For each cell in each object's cell box, register the object in that cell.
@@ -429,12 +429,17 @@ int assign_cells(
 int mod(int a, int b) { int c = a % b; return c < 0 ? c+b : c; }
 int floor_div(int a, int b) { int c = a / b; return c*b > a ? c-1 : c; }
 
+// The cell a pixel belongs to. Pixels outside the map are wrapped, so each whole
+// map they are away counts as the n cells in the map, which need not be a whole
+// number of cells long in pixels
+int pix2cell(int i, int csize, int npix, int ncell) { return floor_div(i, npix)*ncell + mod(i, npix)/csize; }
+
 // Convert y1 y2 x1 x2 -> cy1 cy2 cx1 cx2. The ranges are
 // half-open like in python
-void pixbox2cellbox(int * pixbox, int csize, int ncy, int ncx, int * cellbox) {
+void pixbox2cellbox(int * pixbox, int csize, int ny, int nx, int ncy, int ncx, int * cellbox) {
 	// Go from raw pixel bounds to raw cell bounds
-	int cy1 = floor_div(pixbox[0], csize), cy2 = floor_div(pixbox[1]-1, csize)+1;
-	int cx1 = floor_div(pixbox[2], csize), cx2 = floor_div(pixbox[3]-1, csize)+1;
+	int cy1 = pix2cell(pixbox[0], csize, ny, ncy), cy2 = pix2cell(pixbox[1]-1, csize, ny, ncy)+1;
+	int cx1 = pix2cell(pixbox[2], csize, nx, ncx), cx2 = pix2cell(pixbox[3]-1, csize, nx, ncx)+1;
 	// Put into output
 	cellbox[0] = cy1; cellbox[1] = cy2;
 	cellbox[2] = cx1; cellbox[3] = cx2;
-- 
2.43.0


From 9221cf05276986497d029e119bb1e1893a9c81a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:12 +0000
Subject: [PATCH 107/143] fix: objects are not truncated when many share a
 profile that does not peak at 1

---
 cython/srcsim_core.c | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index e3897f5..c8875cc 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -243,7 +243,7 @@ float * measure_amax(int nobj, int ncomp, float ** amps) {
 
 // prof_info is conceptually a 2d array with the one-past-the-end
 // index of the relevant part of the profile for exponentially spaced
-// value cutoffs.
+// value cutoffs: the first covers values down to 1, the next to 0.1, and so on.
 int * build_prof_info(int nprof, int * prof_ns, float ** prof_vs) {
 	int * prof_info = calloc(nprof*prof_levels, sizeof(int));
 	#pragma omp parallel for
@@ -258,27 +258,21 @@ int * build_prof_info(int nprof, int * prof_ns, float ** prof_vs) {
 				vmax = v;
 			}
 		}
-		// This corresponds to cases where the cutoff is bigger than
-		// any value the beam can reach. Should really set it to 0
-		// in this case, but easier for measure_rmax if se set it to
-		// 1
-		prof_info[i*prof_levels+0] = 1;
 		// The last level just goes all the way out to the end
 		prof_info[i*prof_levels+prof_levels-1] = prof_ns[i];
 		// Populate the others by inwards from the edge
 		int ri = prof_ns[i]-1;
-		for(int li = prof_levels-2; li > 0; li--) {
-			float vlim = vmax * powf(prof_base, -li);
+		for(int li = prof_levels-2; li >= 0; li--) {
+			float vlim = powf(prof_base, -li);
 			for(; ri > imax && fabsf(prof_vs[i][ri]) < vlim; ri--);
-			prof_info[i*prof_levels+li] = ri;
+			prof_info[i*prof_levels+li] = ri+1;
 		}
 	}
 	return prof_info;
 }
 
 int prof_info_lookup(int * prof_info, int prof, float vrel) {
-	// Calculate what power of our base (e.g. power of ten) we are
-	// away from the profile peak
+	// Calculate the power of our base (e.g. power of ten) just below vrel
 	int ind = (int)ceilf(-logf(vrel)/logf(prof_base));
 	// Cap to [0:nlevel]
 	if(ind < 0) ind = 0;
-- 
2.43.0


From 7141722870cec54f43323e829a972259dd476f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:12 +0000
Subject: [PATCH 108/143] fix: srcsim does not read outside the coordinates of
 maps with one row or column

---
 cython/srcsim_core.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index c8875cc..33875b2 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -654,6 +654,8 @@ float calc_dist(float dec1, float ra1, float dec2, float ra2) {
 
 float calc_grad(int i, int n, int s, float * v) {
 	float dv, di;
+	// With just one sample there is no gradient to measure. Everything is within one pixel then
+	if(n < 2) return 1;
 	// Handle edge cases
 	if     (i <= 0  ) { dv = v[s      ]-v[0      ]; di = 1; }
 	else if(i >= n-1) { dv = v[s*(n-1)]-v[s*(n-2)]; di = 1; }
-- 
2.43.0


From 3f014444d106abd45b9217014eebc6e6070ff4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:12 +0000
Subject: [PATCH 109/143] fix: free_pppf frees its argument

---
 cython/srcsim_core.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index 33875b2..4d9bd3c 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -763,7 +763,6 @@ float *** calloc_pppf(int n1, int n2, int n3) {
 
 void free_pppf(float *** a, int n1, int n2) {
 	for(int i1 = 0; i1 < n1; i1++) {
-		a[i1] = calloc(n2, sizeof(float*));
 		for(int i2 = 0; i2 < n2; i2++)
 			free(a[i1][i2]);
 		free(a[i1]);
-- 
2.43.0


From 76e1663557ede7ac4b7c7609e810e4172603efdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:12 +0000
Subject: [PATCH 110/143] fix: sim_srcs with method python works again

---
 pixell/pointsrcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 706f8e2..edb6c4c 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -333,7 +333,7 @@ def eval_srcs_loop(posmap, poss, amps, beam, cres, nhit, cell_srcs, dtype=np.flo
 			r      = utils.angdist(pixpos[::-1,None,:,:],srcpos[::-1,:,None,None])
 			bpix   = (r - beam[0,0])/(beam[0,1]-beam[0,0])
 			# Evaluate the beam at these locations
-			bval   = utils.interpol(beam[1], bpix[None], mode="constant", order=1, mask_nan=False) # [nsrc,ry,rx]
+			bval   = utils.interpol(beam[1], bpix[None], mode="lin", border="constant") # [nsrc,ry,rx]
 			cmodel = srcamp[:,:,None,None]*bval
 			cmodel = op.reduce(cmodel,-3)
 			op(model[:,y1:y2,x1:x2], cmodel, model[:,y1:y2,x1:x2])
-- 
2.43.0


From 0851f95233e788c5f4d658647e824f02ff8f7c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:12 +0000
Subject: [PATCH 111/143] fix: sim_srcs_dist_transform handles gaussian beams,
 rmax and smul

---
 pixell/pointsrcs.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index edb6c4c..6103b63 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -358,17 +358,20 @@ def sim_srcs_dist_transform(shape, wcs, srcs, beam, omap=None, dtype=None, nsigm
 	# The beam parameters are ignored - the beam argument is used instead
 	amps = srcs[:,2:2+ncomp]
 	poss = srcs[:,:2].copy()
-	br, bv = expand_beam(beam, nsigma, rmax).copy()
-	rmax = nsigma2rmax(beam, nsigma)
+	beam   = expand_beam(beam, nsigma, rmax)
+	br, bv = beam
+	if not rmax: rmax = nsigma2rmax(beam, nsigma)
 	if ignore_outside:
 		pixs = enmap.sky2pix(shape, wcs, poss.T[:2])
 		pmax = 2*rmax/enmap.pixsize(shape, wcs)**0.5
 		bad  = np.any(pixs <  -pmax, 0) | np.any(pixs > np.array(shape[-2:])[:,None]+pmax, 0)
 		amps, poss = amps[~bad], poss[~bad]
 	r, domains = enmap.distance_from(shape, wcs, poss.T[:2], domains=True, rmax=rmax)
+	# Pixels further than rmax from all sources have no domain
+	bval = np.where(domains >= 0, np.interp(r, br, bv, right=0), 0) * smul
 	np.clip(domains, 0, amps.shape[0]-1, domains)
 	for i in range(ncomp):
-		op(omap[i], np.interp(r, br, bv, right=0) * amps[domains,i], omap[i])
+		op(omap[i], bval * amps[domains,i], omap[i])
 	omap = omap.reshape(ishape)
 	return omap
 
-- 
2.43.0


From c01ccd81f6d39d5afffbd266a12415821e6d15cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:12 +0000
Subject: [PATCH 112/143] fix: box_slice and box_overlap work for boxes that
 are not 2d

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index e4cbe60..6cae7c6 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1310,7 +1310,7 @@ def box_slice(a, b):
 	fa = a.reshape(-1,2,a.shape[-1])
 	fb = b.reshape(-1,2,b.shape[-1])
 	s  = np.minimum(np.maximum(0,fb[None,:]-fa[:,None,0,None]),fa[:,None,1,None]-fa[:,None,0,None])
-	return s.reshape(a.shape[:-2]+b.shape[:-2]+(2,2))
+	return s.reshape(a.shape[:-2]+b.shape[:-2]+(2,a.shape[-1]))
 
 def box_area(a):
 	"""Compute the area of a [{from,to},ndim] box, or an array of such boxes."""
-- 
2.43.0


From f5107575321b03c9eb927a8eae17e2f4715e6917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:12 +0000
Subject: [PATCH 113/143] fix: multimap.harm2map passes on keep_imag

---
 pixell/multimap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index a34274a..2181272 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -231,7 +231,7 @@ def map2harm(mmap, nthread=0, normalize=True, iau=False, spin=[0,2], adjoint_har
 	return multimap([enmap.map2harm(m, nthread=nthread, normalize=normalize, iau=iau, spin=spin, adjoint_harm2map=adjoint_harm2map) for m in mmap.maps])
 
 def harm2map(mmap, nthread=0, normalize=True, iau=False, spin=[0,2], keep_imag=False, adjoint_map2harm=False):
-	return multimap([enmap.harm2map(m, nthread=nthread, normalize=normalize, iau=iau, spin=spin, adjoint_map2harm=adjoint_map2harm) for m in mmap.maps])
+	return multimap([enmap.harm2map(m, nthread=nthread, normalize=normalize, iau=iau, spin=spin, keep_imag=keep_imag, adjoint_map2harm=adjoint_map2harm) for m in mmap.maps])
 
 def map2harm_adjoint(mmap, nthread=0, normalize=True, iau=False, spin=[0,2], keep_imag=False):
 	return harm2map(mmap, nthread=nthread, normalize=normalize, iau=iau, spin=spin, keep_imag=keep_imag, adjoint_map2harm=True)
-- 
2.43.0


From 800ec81e7abfc2387bd53c5da745f6d438e01402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:12 +0000
Subject: [PATCH 114/143] fix: multimap.dct and idct give real maps

---
 pixell/multimap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index 2181272..a11ed73 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -202,11 +202,11 @@ def std(mmap):
 	return np.array([np.std(m,(-2,-1)) for m in mmap.maps])
 
 def fft(mmap, omap=None, nthread=0, normalize=True, adjoint_ifft=False, dct=False):
-	if omap is None: omap = mmap*0j
+	if omap is None: omap = mmap.copy() if dct else mmap*0j
 	return multimap([enmap.fft(im.astype(om.dtype), omap=om, nthread=nthread, normalize=normalize, adjoint_ifft=adjoint_ifft, dct=dct) for im, om in zip(mmap.maps, omap.maps)])
 
 def ifft(mmap, omap=None, nthread=0, normalize=True, adjoint_fft=False, dct=False):
-	mmap = utils.ascomplex(mmap)
+	if not dct: mmap = utils.ascomplex(mmap)
 	if omap is None: omap = mmap.copy()
 	return multimap([enmap.ifft(im, omap=om, nthread=nthread, normalize=normalize, adjoint_fft=adjoint_fft, dct=dct) for im, om in zip(mmap.maps, omap.maps)])
 
-- 
2.43.0


From 4397e592f83800a5abac383091c4fc3a5d8bf923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:37 +0000
Subject: [PATCH 115/143] fix: pixshapemap of non-cylindrical maps is right
 where ra wraps

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 258d1aa..0aeb9a0 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1079,7 +1079,7 @@ def pixshapemap(shape, wcs, bsize=1000, separable="auto", signed=False, bcheck=F
 				y, x = pix2sky(shape, wcs, pix, safe=True, corner=True, bcheck=bcheck)
 			del pix
 			dy = y[1:,1:]-y[:-1,:-1]
-			dx = x[1:,1:]-x[:-1,:-1]
+			dx = utils.rewind(x[1:,1:]-x[:-1,:-1])
 			if not signed: dy, dx = np.abs(dy), np.abs(dx)
 			cy = np.cos(y)
 			bad= cy<= 0
-- 
2.43.0


From 3e39d95c5c0c37c3f9bb44f2257e6b2628da53c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:57 +0000
Subject: [PATCH 116/143] fix: sim_objects and radial_sum cover objects that
 reach close to the poles

---
 cython/srcsim_core.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index 4d9bd3c..5f10c79 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -132,6 +132,7 @@ float calc_grad(int i, int n, int s, float * v);
 
 void calc_pix_shape(int y, int x, int ny, int nx, int separable, float * pix_decs, float * pix_ras, float * ysize, float * xsize);
 void estimate_bounding_box(
+		float obj_dec,    // object declination
 		int   obj_y,      // object pixel coordinates
 		int   obj_x,      //
 		float rmax,       // max relevant radius for object
@@ -357,7 +358,7 @@ int assign_cells(
 	#pragma omp parallel for
 	for(int oi = 0; oi < nobj; oi++) {
 		int pixbox[4];
-		estimate_bounding_box(obj_ys[oi], obj_xs[oi], rmaxs[oi], ny, nx, separable, pix_decs, pix_ras, pixbox);
+		estimate_bounding_box(obj_decs[oi], obj_ys[oi], obj_xs[oi], rmaxs[oi], ny, nx, separable, pix_decs, pix_ras, pixbox);
 		// This also handles wrapping such that the start will always be
 		// positive, and the end will be at most start beyond the end.
 		// This means that the sloppy wrapping we do that doesn't know about
@@ -696,6 +697,7 @@ void calc_pix_shape(int y, int x, int ny, int nx, int separable, float * pix_dec
 }
 
 void estimate_bounding_box(
+		float obj_dec,    // object declination
 		int   obj_y,      // object pixel coordinates
 		int   obj_x,      //
 		float rmax,       // max relevant radius for object
@@ -726,6 +728,13 @@ void estimate_bounding_box(
 	// 4. Use this to define a final rectangle
 	Dy = (int)(rmax/dy)+1;
 	Dx = (int)(rmax/dx)+1;
+	// 5. This underestimates the width close to the poles. In separable coordinates
+	//    we can use the exact range of ra that's closer than rmax
+	if(separable) {
+		float dra = fmaxf(fabsf(calc_grad(obj_x, nx, 1, pix_ras)), 1e-12);
+		float Dra = fabsf(obj_dec)+rmax < M_PI/2 ? asin(sin(rmax)/cos(obj_dec)) : M_PI;
+		Dx = (int)(Dra/dra)+1;
+	}
 	box[0] = obj_y - Dy;
 	box[1] = obj_y + Dy+1;
 	box[2] = obj_x - Dx;
@@ -814,7 +823,7 @@ void radial_sum(
 	for(int oi = 0; oi < nobj; oi++) {
 		// 3. Figure out which pixels are relevant
 		int pixbox[4];
-		estimate_bounding_box(obj_ys[oi], obj_xs[oi], rmax, ny, nx, separable, pix_decs, pix_ras, pixbox);
+		estimate_bounding_box(obj_decs[oi], obj_ys[oi], obj_xs[oi], rmax, ny, nx, separable, pix_decs, pix_ras, pixbox);
 		wrap_box(pixbox, ny, nx);
 		for(int y_ = pixbox[0]; y_ < pixbox[1]; y_++) {
 			// We only need to handle upper wrapping due to wrap_box
-- 
2.43.0


From e267456c56fb0e97c9476f6426803dcb43be1278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:00 +0000
Subject: [PATCH 117/143] fix: pixel areas of non-cylindrical maps are right
 where ra wraps

---
 pixell/enmap.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 0aeb9a0..4ae6ce8 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1079,7 +1079,7 @@ def pixshapemap(shape, wcs, bsize=1000, separable="auto", signed=False, bcheck=F
 				y, x = pix2sky(shape, wcs, pix, safe=True, corner=True, bcheck=bcheck)
 			del pix
 			dy = y[1:,1:]-y[:-1,:-1]
-			dx = utils.rewind(x[1:,1:]-x[:-1,:-1])
+			dx = x[1:,1:]-x[1:,:-1] + utils.rewind(x[1:,:-1]-x[:-1,:-1])
 			if not signed: dy, dx = np.abs(dy), np.abs(dx)
 			cy = np.cos(y)
 			bad= cy<= 0
@@ -1174,11 +1174,11 @@ def pixsizemap_contour(shape, wcs, bsize=1000, bcheck=False):
 		# Integrate (1-sin(dec))*dRA from [0,0] to [1,0], using the
 		# average msin value along this path
 		msin   = 1-np.sin(dec)
-		areas  = (ra[ 1:,:-1]-ra[:-1,:-1])*(msin[ 1:,:-1]+msin[:-1,:-1])/2
+		areas  = utils.rewind(ra[ 1:,:-1]-ra[:-1,:-1])*(msin[ 1:,:-1]+msin[:-1,:-1])/2
 		# [1,0] to [1,1]
 		areas += (ra[ 1:, 1:]-ra[ 1:,:-1])*(msin[ 1:, 1:]+msin[ 1:,:-1])/2
 		# [1,1] to [0,1]
-		areas += (ra[:-1, 1:]-ra[ 1:, 1:])*(msin[:-1, 1:]+msin[ 1:, 1:])/2
+		areas += utils.rewind(ra[:-1, 1:]-ra[ 1:, 1:])*(msin[:-1, 1:]+msin[ 1:, 1:])/2
 		# [0,1] to [0,0]
 		areas += (ra[:-1,:-1]-ra[:-1, 1:])*(msin[:-1,:-1]+msin[:-1, 1:])/2
 		psizes[y1:y2] = np.abs(areas)
-- 
2.43.0


From c280f49ce87021960fc1323f84f27d749f473ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:00 +0000
Subject: [PATCH 118/143] fix: srcsim handles angle cuts in either direction

---
 cython/srcsim_core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index 5f10c79..5d6beb7 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -662,7 +662,7 @@ float calc_grad(int i, int n, int s, float * v) {
 	else if(i >= n-1) { dv = v[s*(n-1)]-v[s*(n-2)]; di = 1; }
 	else              { dv = v[s*(i+1)]-v[s*(i-1)]; di = 2; }
 	// Handle angle cut
-	dv = fmod(dv + M_PI, 2*M_PI) - M_PI;
+	dv = remainder(dv, 2*M_PI);
 	return dv/di;
 }
 
-- 
2.43.0


From 2c0fe814db3ed400daaa36c2dccffda430a55ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 119/143] fix: lensing.pole_wrap works for multidimensional
 positions

---
 pixell/lensing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 9145a85..46fc5f7 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -359,10 +359,10 @@ def offset_by_grad_helper(ipos, grad, pol):
 def pole_wrap(pos):
 	"""Handle pole wraparound."""
 	a = np.array(pos)
-	bad = np.where(a[0] > np.pi/2)
+	bad = a[0] > np.pi/2
 	a[0,bad] = np.pi - a[0,bad]
 	a[1,bad] = a[1,bad]+np.pi
-	bad = np.where(a[0] < -np.pi/2)
+	bad = a[0] < -np.pi/2
 	a[0,bad] = -np.pi - a[0,bad]
 	a[1,bad] = a[1,bad]+np.pi
 	return a
-- 
2.43.0


From 2f02cbb223aded1bef84612b114fa15956a86dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 120/143] fix: lens_map_curved accepts a delta_theta of a
 single row

---
 pixell/lensing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 46fc5f7..dbe48d3 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -193,7 +193,7 @@ def lens_map_curved(shape, wcs, phi_alm, cmb_alm, phi_ainfo=None, maplmax=None,
 		bsize = utils.nint(abs(delta_theta/utils.degree/wcs.wcs.cdelt[1]))
 		# Adjust bsize so we don't get any tiny blocks at the end
 		nblock= shape[-2]//bsize
-		bsize = int(shape[-2]/(nblock+0.5))
+		bsize = max(1,int(shape[-2]/(nblock+0.5)))
 	# Allocate output maps
 	if "p" in output: phi_map   = enmap.empty(shape[-2:], wcs, dtype=dtype)
 	if "k" in output:
-- 
2.43.0


From 5d482df4195158711028affe23ac89533092e411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 121/143] fix: lens_map_curved uses the phi_ainfo it is given

---
 pixell/lensing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index dbe48d3..a1706ed 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -200,7 +200,7 @@ def lens_map_curved(shape, wcs, phi_alm, cmb_alm, phi_ainfo=None, maplmax=None,
 		kappa_map = enmap.empty(shape[-2:], wcs, dtype=dtype)
 		kappa_alm = phi_to_kappa(phi_alm,phi_ainfo=phi_ainfo)
 		for i1 in range(0, shape[-2], bsize):
-			curvedsky.alm2map(kappa_alm, kappa_map[...,i1:i1+bsize,:])
+			curvedsky.alm2map(kappa_alm, kappa_map[...,i1:i1+bsize,:], ainfo=phi_ainfo)
 		del kappa_alm
 	if "a" in output: grad_map  = enmap.empty((2,)+shape[-2:], wcs, dtype=dtype)
 	if "u" in output: cmb_raw   = enmap.empty(shape, wcs, dtype=dtype)
@@ -211,11 +211,11 @@ def lens_map_curved(shape, wcs, phi_alm, cmb_alm, phi_ainfo=None, maplmax=None,
 		lshape, lwcs = enmap.slice_geometry(shape, wcs, (slice(i1,i2),slice(None)))
 		if "p" in output:
 			if verbose: print("Computing phi map")
-			curvedsky.alm2map(phi_alm, phi_map[...,i1:i2,:])
+			curvedsky.alm2map(phi_alm, phi_map[...,i1:i2,:], ainfo=phi_ainfo)
 		if verbose: print("Computing grad map")
 		if "a" in output: grad = grad_map[...,i1:i2,:]
 		else: grad = enmap.zeros((2,)+lshape[-2:], lwcs, dtype=dtype)
-		curvedsky.alm2map(phi_alm, grad, deriv=True)
+		curvedsky.alm2map(phi_alm, grad, deriv=True, ainfo=phi_ainfo)
 		if "l" not in output: continue
 		if verbose: print("Computing observed coordinates")
 		obs_pos = enmap.posmap(lshape, lwcs)
-- 
2.43.0


From 501ffdabdd197ff969972dab74de7442a49cada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 122/143] fix: lens_map_curved computes the unlensed map also
 without the lensed one

---
 pixell/lensing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index a1706ed..bb7333a 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -216,15 +216,15 @@ def lens_map_curved(shape, wcs, phi_alm, cmb_alm, phi_ainfo=None, maplmax=None,
 		if "a" in output: grad = grad_map[...,i1:i2,:]
 		else: grad = enmap.zeros((2,)+lshape[-2:], lwcs, dtype=dtype)
 		curvedsky.alm2map(phi_alm, grad, deriv=True, ainfo=phi_ainfo)
+		if "u" in output:
+			if verbose: print("Computing unlensed map")
+			curvedsky.alm2map(cmb_alm, cmb_raw[...,i1:i2,:], spin=spin)
 		if "l" not in output: continue
 		if verbose: print("Computing observed coordinates")
 		obs_pos = enmap.posmap(lshape, lwcs)
 		if verbose: print("Computing alpha map")
 		raw_pos = enmap.samewcs(offset_by_grad(obs_pos, grad, pol=shape[-3]>1, geodesic=geodesic), obs_pos)
 		del obs_pos, grad
-		if "u" in output:
-			if verbose: print("Computing unlensed map")
-			curvedsky.alm2map(cmb_alm, cmb_raw[...,i1:i2,:], spin=spin)
 		if verbose: print("Computing lensed map")
 		cmb_obs[...,i1:i2,:] = curvedsky.alm2map_pos(cmb_alm, raw_pos[:2], spin=spin)
 		if raw_pos.shape[0] > 2 and np.any(raw_pos[2]):
-- 
2.43.0


From 998f42c7406c5481d1972daf64f9d44b3c137fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 123/143] fix: lensing.rand_alm with phi_seed draws real m=0
 modes and allows ncomp=None

---
 pixell/lensing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index bb7333a..11336dd 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -254,13 +254,13 @@ def rand_alm(ps_lensinput, lmax=None, dtype=np.float64, seed=None, phi_seed=None
 	else:
 		# We want separate seeds for cmb and phi. This means we have to do things a bit more manually
 		wps, ainfo = curvedsky.prepare_ps(ps_lensinput, lmax=lmax)
-		alm = np.empty([1+ncomp,ainfo.nelem],ctype)
+		alm = np.empty([len(wps),ainfo.nelem],ctype)
 		curvedsky.rand_alm_white(ainfo, alm=alm[:1], seed=phi_seed)
 		curvedsky.rand_alm_white(ainfo, alm=alm[1:], seed=seed)
 		ps12 = enmap.multi_pow(wps, 0.5)
 		ainfo.lmul(alm, (ps12/2**0.5).astype(dtype), alm)
-		alm[:,:ainfo.lmax].imag  = 0
-		alm[:,:ainfo.lmax].real *= 2**0.5
+		alm[:,:ainfo.lmax+1].imag  = 0
+		alm[:,:ainfo.lmax+1].real *= 2**0.5
 		del wps, ps12
 		
 	# Return phi_alm and cmb_alm
-- 
2.43.0


From 126c2c671843973fcb37737fff7349a5d4060f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 124/143] fix: the fullsky boundary of aberration continues the
 map across the pole

---
 pixell/aberration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/aberration.py b/pixell/aberration.py
index 771aca9..e2baec4 100644
--- a/pixell/aberration.py
+++ b/pixell/aberration.py
@@ -250,7 +250,7 @@ def interpol_map(imap, pixs, epsilon=None, nthread=None, ydouble=False):
 		# fullsky maps, but makes less sense for partial sky maps
 		dmap = enmap.zeros(imap.shape[:-2]+(2*ny,nx), imap.wcs, imap.dtype)
 		dmap[...,:ny,:] = imap
-		dmap[...,ny:,:] = np.roll(imap[...,::-1], nx//2, -1)
+		dmap[...,ny:,:] = np.roll(imap[...,::-1,:], nx//2, -1)
 	else:
 		dmap = imap
 	periodicity = np.array(dmap.shape[-2:])
-- 
2.43.0


From 70b4840ede4ba887865d11fd9d764b42f71b782a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 125/143] fix: lin2T modulation subtracts the T0 it was given

---
 pixell/aberration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/aberration.py b/pixell/aberration.py
index e2baec4..7932ac3 100644
--- a/pixell/aberration.py
+++ b/pixell/aberration.py
@@ -350,7 +350,7 @@ def _modulate_lin2T(map, A, T0=utils.T_cmb, freq=150e9, map_unit=1e-6, spin=0, d
 			oval  = iplanck(freq, oval)
 			# Apply modulation
 			oval *= a
-			oval -= utils.T_cmb
+			oval -= T0
 			map[y,x] = oval/map_unit
 
 @numba.njit
-- 
2.43.0


From 50b064e6eb1d6cb2824b9011bbf68d6609f80b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 126/143] fix: Modulator warns about a dtype mismatch instead
 of failing

---
 pixell/aberration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/aberration.py b/pixell/aberration.py
index 7932ac3..3a613e6 100644
--- a/pixell/aberration.py
+++ b/pixell/aberration.py
@@ -1,4 +1,4 @@
-import numpy as np, numba, ducc0, time
+import numpy as np, numba, ducc0, time, warnings
 from . import coordinates, enmap, utils, curvedsky, wcsutils
 
 beta    = 0.001235
-- 
2.43.0


From 3d28fd2ae077891515c27ee5578854768a2b23b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 127/143] fix: boost_map passes coord_dtype on

---
 pixell/aberration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/aberration.py b/pixell/aberration.py
index 3a613e6..1fb586c 100644
--- a/pixell/aberration.py
+++ b/pixell/aberration.py
@@ -47,7 +47,8 @@ def boost_map(map, dir=dir_equ, beta=beta, modulation="T2lin", T0=utils.T_cmb, f
 	"""
 	if return_modulation: assert modulate, "Can't return modulation of modulation is disabled"
 	if aberrate:
-		map    = aberrate_map(map, dir=dir, beta=beta, spin=spin, nthread=nthread, boundary=boundary)
+		map    = aberrate_map(map, dir=dir, beta=beta, spin=spin, nthread=nthread,
+			coord_dtype=coord_dtype, boundary=boundary)
 	if modulate:
 		map, A = modulate_map(map, dir=dir, beta=beta, spin=spin, nthread=nthread, dipole=dipole,
 			modulation=modulation, T0=T0, freq=freq, map_unit=map_unit, return_modulation=True)
-- 
2.43.0


From 56d6cc2e4625447da02b66985e2fda08ca9f2ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 128/143] fix: fast_rewind rewinds to the period around ref

---
 pixell/aberration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/aberration.py b/pixell/aberration.py
index 1fb586c..587ec31 100644
--- a/pixell/aberration.py
+++ b/pixell/aberration.py
@@ -360,7 +360,7 @@ def fast_rewind(arr, period, ref=None):
 	ref2 = ref - period/2
 	for i, a in enumerate(arr):
 		# Try to make it branchless
-		off     = a-ref
+		off     = a-ref2
 		arr[i] -= period*(off>=period)
 		arr[i] += period*(off< 0)
 
-- 
2.43.0


From e35538f808eacdba9185317d4eba7afd2ac1b8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 129/143] fix: the maps of a multimap can be indexed from the
 end

---
 pixell/multimap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index a11ed73..7fc639c 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -54,11 +54,13 @@ class _map_view:
 		sel1, sel2 = utils.split_slice(sel, [1,self.multimap.ndim+2-1])
 		if len(sel1) == 0: return self.multimap
 		i    = sel1[0]
+		if i < 0: i += self.multimap.nmap
 		return enmap.ndmap(self.multimap[...,self.offs[i]:self.offs[i+1]].reshape(self.multimap.pre + self.multimap.geometries[i].shape[-2:]), self.multimap.geometries[i].wcs)[sel2]
 	def __setitem__(self, sel, val):
 		sel1, sel2 = utils.split_slice(sel, [1,self.multimap.ndim+2-1])
 		if len(sel1) == 0: return self.multimap
 		i    = sel1[0]
+		if i < 0: i += self.multimap.nmap
 		# This assumes that the slicing and reshaping won't cause copies. This should be the case if
 		# self.multimap is contiguous. To be robust I should detect if a copy would be made, and fall back
 		# on something slower in that case
-- 
2.43.0


From 792b771553375983fcc9175f0ba00180c1473998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 130/143] fix: resample_fft does not shift what was already in
 fomap

---
 pixell/enmap.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 4ae6ce8..3251fc4 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3182,14 +3182,21 @@ def resample_fft(fimap, oshape, fomap=None, off=(0,0), corner=True, norm="pix",
 	def transfer(dest, source, norm, op):
 		if norm != 1: source = source*norm
 		dest[:] = op(dest, source)
-	transfer(fomap[...,:hny,       :hnx       ],fimap[...,:hny,       :hnx       ], norm, op)
-	transfer(fomap[...,:hny,       ox:        ],fimap[...,:hny,       ix:        ], norm, op)
-	transfer(fomap[...,oy:,        :hnx       ],fimap[...,iy:,        :hnx       ], norm, op)
-	transfer(fomap[...,oy:,        ox:        ],fimap[...,iy:,        ix:        ], norm, op)
+	def transfer_quads(fomap, fimap, iy, ix, norm, op):
+		transfer(fomap[...,:hny,       :hnx       ],fimap[...,:hny,       :hnx       ], norm, op)
+		transfer(fomap[...,:hny,       ox:        ],fimap[...,:hny,       ix:        ], norm, op)
+		transfer(fomap[...,oy:,        :hnx       ],fimap[...,iy:,        :hnx       ], norm, op)
+		transfer(fomap[...,oy:,        ox:        ],fimap[...,iy:,        ix:        ], norm, op)
 	if np.any(off != 0):
+		# Shift only what we are adding, not what was already in fomap.
 		# It's fastest to do this here when downsampling, but when upsampling
 		# it's faster to do so in the fimap. And for a mix it's bad to do it both places.
-		fomap[:] = enfft.shift(fomap, off, axes=(-2,-1), nofft=True)
+		tmp = zeros(oshape, fomap.wcs, np.result_type(fimap.dtype,0j))
+		transfer_quads(tmp, fimap, iy, ix, 1, lambda a,b:b)
+		tmp = enfft.shift(tmp, off, axes=(-2,-1), nofft=True)
+		transfer_quads(fomap, tmp, oy, ox, norm, op)
+	else:
+		transfer_quads(fomap, fimap, iy, ix, norm, op)
 	return fomap
 
 def spin_helper(spin, n):
-- 
2.43.0


From fc78934f50b688265ef541cb13ff02758d436746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 131/143] fix: flat-sky wavelets get their multipoles without a
 phase shift

---
 pixell/wavelets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 1c954f2..803a416 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -385,7 +385,8 @@ class WaveletTransform:
 		"""Get the multipole indices for wavelet scale i. This will be an enmap
 		in if the uht is flat, otherwise it's a 1d array"""
 		if self.uht.mode == "flat":
-			return enmap.resample_fft(self.uht.l, self.geometries[i][0], norm=None, corner=True)
+			# The multipoles are just copied, so no phase shift should be applied
+			return enmap.resample_fft(self.uht.l, self.geometries[i][0], norm=None, corner=False)
 		else:
 			return self.uht.l
 	def get_variance_transform(self):
-- 
2.43.0


From 84797120e99cda8ee17ddda467f6e00f86091aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 132/143] fix: WaveletTransform.wcs is the wcs

---
 pixell/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 803a416..b1155b4 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -299,7 +299,7 @@ class WaveletTransform:
 	@property
 	def shape(self): return self.uht.shape
 	@property
-	def wcs(self): return self.uht.shape
+	def wcs(self): return self.uht.wcs
 	@property
 	def geometry(self): return self.shape, self.wcs
 	@property
-- 
2.43.0


From f8683db6e19ca1f6884edc617616b217a7610053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 133/143] fix: flat-sky map2wave fills skipped scales with
 fill_value

---
 pixell/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index b1155b4..db04679 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -338,7 +338,7 @@ class WaveletTransform:
 					owave.maps[i] = enmap.ifft(fsmall, normalize=False).real
 				else:
 					owave.maps[i] = enmap.zeros(shape,wcs)
-					if fill_value is not None: owave.maps[i][:] = np.nan
+					if fill_value is not None: owave.maps[i][:] = fill_value
 					
 		else:
 			ainfo = curvedsky.alm_info(lmax=self.basis.lmax)
-- 
2.43.0


From 29fc088f7c05389a89427d76f780ce74809a90ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 134/143] fix: the last cosine needlet includes its peak

---
 pixell/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index db04679..547238b 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -147,7 +147,7 @@ class CosineNeedlet:
 		out = l*0.
 		if i>0:
 			lpeakim1 = self.lpeaks[i-1]
-			sel1 = np.logical_and(l>=lpeakim1,l<lpeaki)
+			sel1 = np.logical_and(l>=lpeakim1,l<=lpeaki)
 			out[sel1] = np.cos(np.pi*(lpeaki-l[sel1])/(lpeaki-lpeakim1)/2.)
 		if i<(self.n-1):
 			lpeakip1 = self.lpeaks[i+1]
-- 
2.43.0


From da816aaa0c41dca07838ccaf08fbf0eb500c9bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 135/143] fix: UHT.harm2map_adjoint passes spin on in curved
 mode

---
 pixell/uharm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/uharm.py b/pixell/uharm.py
index 285dcd7..72602eb 100644
--- a/pixell/uharm.py
+++ b/pixell/uharm.py
@@ -106,7 +106,7 @@ class UHT:
 		if self.mode == "flat":
 			return enmap.harm2map_adjoint(map, spin=spin, normalize="phys")
 		else:
-			return curvedsky.alm2map_adjoint(map, ainfo=self.ainfo)
+			return curvedsky.alm2map_adjoint(map, ainfo=self.ainfo, spin=spin)
 	def map2harm_adjoint(self, harm, spin=0):
 		if self.mode == "flat":
 			return enmap.map2harm_adjoint(harm, spin=spin, normalize="phys")
-- 
2.43.0


From 342991b1e8c53213d0e432eedd08fcb2277d3b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 136/143] fix: harm2profile_flat_2d returns the radii

---
 pixell/uharm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/uharm.py b/pixell/uharm.py
index 72602eb..2f961e8 100644
--- a/pixell/uharm.py
+++ b/pixell/uharm.py
@@ -252,7 +252,7 @@ def harm2profile_flat_2d(harm, r=None):
 	cpos = bmap.pix2sky(cpix)
 	bmap = enmap.shift(bmap, cpix, keepwcs=True)
 	wbr, wr = bmap.rbin(center=cpos)
-	if r is None: return wbr, r
+	if r is None: return wbr, wr
 	else:         return utils.interp(r, wr, wbr, right=0)
 
 def beam2res(br, r):
-- 
2.43.0


From f7de2e39f4fbbfcccbdab54ed23f4501a6e8130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:05 +0000
Subject: [PATCH 137/143] fix: alm_info.get_map, which UHT.hprof2harm needs, is
 implemented

---
 pixell/curvedsky.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index e2e5199..29c8896 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -432,7 +432,11 @@ class alm_info:
 		return (self.mstart[m].astype(int, copy=False)+l*self.stride).astype(int, copy=False)
 	def get_map(self):
 		"""Return the explicit [nelem,{l,m}] mapping this alm_info represents."""
-		raise NotImplementedError
+		res = np.zeros((self.nelem,2),int)
+		for m in range(self.mmax+1):
+			l = np.arange(m, self.lmax+1)
+			res[self.lm2ind(l,m)] = np.stack([l,np.full(len(l),m)],-1)
+		return res
 	def transpose_alm(self, alm, out=None):
 		"""In order to accomodate l-major ordering, which is not directly
 		supported, this function efficiently transposes Alm into
-- 
2.43.0


From d95882c31212b48035b351f2bfb90f34d9f5d74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:05 +0000
Subject: [PATCH 138/143] fix: WaveletTransform accepts ores

---
 pixell/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 547238b..5941f9b 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -285,7 +285,7 @@ class WaveletTransform:
 			if ores is None:
 				oress = np.maximum(np.pi/self.basis.lmaxs, ires)
 			else:
-				oress = np.zeros(self.nlevel)+ores
+				oress = np.zeros(self.basis.n)+ores
 			# Build the geometries for each wavelet scale
 			if uht.mode == "flat":
 				self.geometries = [make_wavelet_geometry_flat(uht.shape, uht.wcs, ires, ores) for ores in oress[:-1]] + [(uht.shape, uht.wcs)]
-- 
2.43.0


From 0d9be59261b659d4f382856f3581ae573532d032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:59 +0000
Subject: [PATCH 139/143] fix: lensing.rand_map returns maps of the shape asked
 for

---
 pixell/lensing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 11336dd..bb84b2b 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -279,7 +279,7 @@ def rand_map(shape, wcs, ps_lensinput, lmax=None, maplmax=None, dtype=np.float64
 	# to a lower lmax for the map than for phi, to avoid aliasing. The appropriate lmax
 	# for the cmb was the one that fits the resolution. FIXME: Can't slice alm this way.
 	#if maplmax: cmb_alm = cmb_alm[:,:maplmax]
-	return lens_map_curved(shape=shape, wcs=wcs, phi_alm=phi_alm,
+	return lens_map_curved(shape=oshape, wcs=wcs, phi_alm=phi_alm,
 		cmb_alm=cmb_alm, phi_ainfo=ainfo, maplmax=maplmax,
 		dtype=dtype, spin=spin,
 		output=output, geodesic=geodesic, verbose=verbose,
-- 
2.43.0


From 189e10246a764b81e780f65f55244db191ddfb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:59 +0000
Subject: [PATCH 140/143] fix: wavelet scales without multipoles are zero, not
 nan

---
 pixell/wavelets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 5941f9b..903418e 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -413,6 +413,8 @@ class WaveletTransform:
 			F    = self.basis(i, ls)
 			W    = F**2*(2*ls+1)/(4*np.pi)
 		Wtot = np.sum(W)
+		# Allow scales without any multipoles in them
+		if Wtot == 0: Wtot = 1.0
 		norm = Wtot**0.5
 		lmid = np.sum(W*ls)/Wtot
 		return F, norm, lmid
-- 
2.43.0


From 558784d1bd21ac039a8a95ba68afe664dfcd6b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:17 +0000
Subject: [PATCH 141/143] fix: interpol with border wrap is periodic

---
 pixell/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 6cae7c6..f39f900 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -605,7 +605,8 @@ class SplineInterpolator:
 		self.mode, self.order = _ip_get_mode(mode, order)
 		self.npre = npre % arr.ndim
 		self.cval = cval
-		self.border = border
+		# scipy's "wrap" has period n-1. "grid-wrap" is actually periodic
+		self.border = "grid-wrap" if border == "wrap" else border
 		if self.mode != "spline": raise ValueError("Unrecognized spline interpolation mode '%s'" % str(mode))
 		arr = np.asanyarray(arr)
 		# Neither spline coefficients nor interpolated values are whole numbers
-- 
2.43.0


From f129ee9cd8e43f3d435e7c840b65fd7462686b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:17 +0000
Subject: [PATCH 142/143] fix: lens_map_flat calls interpol with arguments it
 understands

---
 pixell/lensing.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index bb84b2b..73d8a1c 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -68,11 +68,8 @@ def displace_map(imap, pix, order=3, mode="spline", border="cyclic", trans=False
 # its gradient as an argument.
 def lens_map_flat(cmb_map, phi_map):
 	raw_pix  = cmb_map.pixmap() + enmap.grad_pix(phi_map)
-	# And extract the interpolated values. Because of a bug in map_pixels with
-	# mode="wrap", we must handle wrapping ourselves.
-	npad = int(np.ceil(max(np.max(-raw_pix),np.max(raw_pix-np.array(cmb_map.shape[-2:])[:,None,None]))))
-	pmap = enmap.pad(cmb_map, npad, wrap=True)
-	return enmap.samewcs(utils.interpol(pmap, raw_pix+npad, order=4, mode="wrap"), cmb_map)
+	# And extract the interpolated values.
+	return enmap.samewcs(utils.interpol(cmb_map, raw_pix, order=3, border="wrap"), cmb_map)
 
 ######## Curved sky lensing ########
 
-- 
2.43.0


From c7927071a82d01a09756b83756c6421480447e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:07 +0000
Subject: [PATCH 143/143] fix: offset_by_grad does not give nan through
 rounding close to the poles

---
 pixell/lensing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 73d8a1c..a032a4c 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -337,8 +337,12 @@ def offset_by_grad_helper(ipos, grad, pol):
 	cosd, sind = np.cos(d), np.sin(d)
 	cost, sint = np.cos(ipos[0]), np.sin(ipos[0])
 	ocost  = cosd*cost-sind*sint*grad[0]
+	# Rounding can bring these slightly outside the allowed range close to the poles,
+	# and the longitude doesn't matter if we end up exactly on a pole
+	ocost  = np.clip(ocost, -1, 1)
 	osint  = (1-ocost**2)**0.5
-	ophi   = ipos[1] + np.arcsin(sind*grad[1]/osint)
+	with utils.nowarn():
+		ophi = ipos[1] + np.where(osint > 0, np.arcsin(np.clip(sind*grad[1]/osint, -1, 1)), 0)
 	if not pol:
 		return np.array([np.arccos(ocost), ophi]), None
 	# Compute the induced polarization rotation.
-- 
2.43.0

