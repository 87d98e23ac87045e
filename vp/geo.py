"""Symbolic WCS.

wcslib is a dependency and is not verified.  Its contract, assumed here: for a
celestial or linear WCS with diagonal pixel scale matrix the world coordinates are a
function of (crval, ctype, pv, lonpole, latpole) and of the intermediate
coordinates cdelt*(pix1-crpix), pix1 being the 1-based pixel coordinates.  Two
geometries therefore place two pixels at the same sky position (for every
projection) if those agree.  In concrete runs the real wcslib is asked instead.
"""
import copy, math
import numpy as np
from . import sym, npshim
from .sym import SReal, SInt, issym, And, Or, Eq, ite, Unsupported
WCSLIB = "astropy.wcs/wcslib: sky position is a function of crval, projection, lonpole/latpole and cdelt*(pix-crpix)"

CARLIN = "astropy.wcs/wcslib: plain and CAR (reference on the equator) coordinates are crval+cdelt*(pix-crpix), CAR longitudes up to an unknown number of whole turns"
TURNS = []
def kwarr(v):
    """a keyword vector of real numbers, like wcslib's double arrays"""
    v = list(v.view(np.ndarray)) if isinstance(v, np.ndarray) else list(v)
    r = np.empty(len(v), object)
    for i, x in enumerate(v): r[i] = sym.cast(x, float) if issym(x) else float(x)
    return r.view(npshim.SArr)
class _W:
    def __setattr__(self, k, v):
        if k in ("crpix","cdelt","crval"): v = kwarr(v)
        object.__setattr__(self, k, v)
class SWCS:
    """stand-in for astropy.wcs.WCS with symbolic keywords"""
    naxis = 2
    principal = False          # wcslib's rule for world2pix: the native longitude is in [-180,180]
    def __init__(self, crpix=(0.0,0.0), cdelt=(1.0,1.0), crval=(0.0,0.0), ctype=("RA---CAR","DEC--CAR")):
        self.wcs = _W()
        w = self.wcs
        w.crpix, w.cdelt, w.crval = crpix, cdelt, crval
        w.ctype = list(ctype); w.cunit = ["deg","deg"]; w.naxis = 2
        w.lng, w.lat = 0, 1
        w.lonpole, w.latpole = 0.0, 90.0
        w.bounds_check = lambda *a: None
        w.get_pv = lambda: []
        self.turns = []           # unknown whole turns added by wcslib, one per converted point
    def _lin(self):
        if str(self.wcs.ctype[0]) not in ("","RA---CAR") : raise Unsupported("projection without a linear contract")
        return str(self.wcs.ctype[0]) == "RA---CAR"
    def wcs_pix2world(self, x, y, origin):
        """assumed contract of wcslib for plain and CAR coordinates (CAR: crval on the equator)"""
        car = self._lin(); w = self.wcs; o = 1-origin
        x, y = npshim.asarr(x), npshim.asarr(y)
        ra  = (x+o-w.crpix[0])*w.cdelt[0]+w.crval[0]
        dec = (y+o-w.crpix[1])*w.cdelt[1]+w.crval[1]
        if car: ra = npshim.emap(lambda v: v + 360*self._turn(), ra)
        return [ra, dec]
    def _princ(self, v):
        r = v + 360*self._turn(); d = r-self.wcs.crval[0]
        sym.cur().assume(d >= -180, d <= 180)
        return r
    def wcs_world2pix(self, ra, dec, origin=None):
        if origin is None:          # one array of [:,{ra,dec}]
            p = npshim.asarr(ra); r = self.wcs_world2pix(p[:,0], p[:,1], dec)
            return npshim.asarr([[r[0][i], r[1][i]] for i in range(p.shape[0])])
        car = self._lin(); w = self.wcs; o = 1-origin
        ra, dec = npshim.asarr(ra), npshim.asarr(dec)
        if car: ra = npshim.emap(lambda v: v + 360*self._turn() if not self.principal else self._princ(v), ra)
        return [(ra-w.crval[0])/w.cdelt[0]+w.crpix[0]-o, (dec-w.crval[1])/w.cdelt[1]+w.crpix[1]-o]
    def _turn(self):
        t = SInt(sym.cur().fresh_int("turn")); TURNS.append(t); return t
    def deepcopy(self): return copy.deepcopy(self)
    def __deepcopy__(self, memo):
        r = SWCS(list(self.wcs.crpix.view(np.ndarray)), list(self.wcs.cdelt.view(np.ndarray)), list(self.wcs.crval.view(np.ndarray)), self.wcs.ctype)
        r.principal = self.principal
        r.wcs.lonpole, r.wcs.latpole = self.wcs.lonpole, self.wcs.latpole
        return r
    def copy(self): return self.__deepcopy__({})

def wcs(c, p="w", projs=("plain","car","cea","tan","zea")):
    """an arbitrary WCS.  Concrete: projection drawn from projs"""
    vals = [c.real(p+"crpix0", sample=(-20,20)), c.real(p+"crpix1", sample=(-20,20)), c.real(p+"cdelt0", ne=0, sample=(-2,2)), c.real(p+"cdelt1", ne=0, sample=(-2,2)),
            c.real(p+"crval0", sample=(-180,180)), c.real(p+"crval1", sample=(-30,30))]
    if c.symbolic: return SWCS(vals[0:2], vals[2:4], vals[4:6])
    proj = c.choose(p+"proj", list(projs)) if c.vals is None else "plain"
    return real_wcs(proj, vals[0:2], vals[2:4], vals[4:6])

CT = {"car":"CAR","cea":"CEA","tan":"TAN","zea":"ZEA","mer":"MER","arc":"ARC","sin":"SIN"}
def real_wcs(proj, crpix, cdelt, crval):
    from pixell import wcsutils
    w = wcsutils.WCS(naxis=2)
    if proj != "plain":
        w.wcs.ctype = ["RA---"+CT[proj], "DEC--"+CT[proj]]
        if proj == "cea": w.wcs.set_pv([(2,1,1.0)])
        if proj in ("car","cea","mer"): crval = [crval[0], 0.0]
    else: w.wcs.ctype = ["",""]
    w.wcs.crpix = crpix; w.wcs.cdelt = cdelt; w.wcs.crval = crval
    return w

def inter(w, x, y):
    """intermediate coordinates of 0-based pixel position x, y"""
    return (w.wcs.cdelt[0]*(x+1-w.wcs.crpix[0]), w.wcs.cdelt[1]*(y+1-w.wcs.crpix[1]))

def same_frame(w1, w2):
    """everything but crpix/cdelt agrees"""
    return And(*([Eq(w1.wcs.crval[i], w2.wcs.crval[i]) for i in range(2)] + [list(w1.wcs.ctype) == list(w2.wcs.ctype)]))

def same_sky(c, w1, p1, w2, p2):
    """do pixels p1=(y,x) of w1 and p2 of w2 lie at the same sky position?"""
    (y1,x1), (y2,x2) = p1, p2
    if c.symbolic:
        a, b = inter(w1, x1, y1), inter(w2, x2, y2)
        return And(same_frame(w1, w2), Eq(a[0], b[0]), Eq(a[1], b[1]))
    return sky_eq(w1, p1, w2, p2)

def sky_eq(w1, p1, w2, p2, tol=1e-6):
    a = np.array(w1.wcs_pix2world([[float(p1[1]), float(p1[0])]], 0))[0]
    b = np.array(w2.wcs_pix2world([[float(p2[1]), float(p2[0])]], 0))[0]
    if not np.all(np.isfinite(a)) or not np.all(np.isfinite(b)):
        # outside the projection: fall back to the linear part
        a, b = np.array(inter(w1, p1[1], p1[0])), np.array(inter(w2, p2[1], p2[0]))
        d = a-b
        if str(w1.wcs.ctype[0])[-3:] in ("CAR","CEA","MER"): d[0] = (d[0]+w1.wcs.crval[0]-w2.wcs.crval[0]+180) % 360 - 180
        return bool(np.all(np.abs(d) <= tol*np.maximum(1, np.abs(a))))
    d = a-b
    if not w1.wcs.ctype[0] == "": d[0] = (d[0]+180) % 360 - 180
    if w1.wcs.ctype[0] != "" and abs(abs(a[1])-90) < 1e-7: d[0] = 0
    return bool(np.all(np.abs(d) <= tol*np.maximum(1, np.abs(a))))

def blank(naxis=2):
    """stand-in for astropy.wcs.WCS(naxis=2): a fresh plain WCS"""
    w = SWCS(ctype=("","")); w.principal = True
    w.wcs.set_pv = lambda pv: None
    return w
PRINCIPAL = "astropy.wcs/wcslib: CAR world2pix uses the native longitude within [-180,180]"
