"""C17: interpolation and reprojection read off the map at the true position of each output pixel."""
import itertools
import numpy as np
from vp.core import *
from vp import geo
from vp.contracts.c05 import stub
P = "C17"
NDI = "scipy.ndimage.map_coordinates: order 0 reads the closest sample, order 1 is multilinear, inside the array"

class NDImage:
    """assumed contract of scipy.ndimage.map_coordinates for positions inside a small array, orders 0 and 1"""
    def __init__(self, c): self.c = c
    def map_coordinates(self, a, inds, order=3, mode=None, cval=0.0, prefilter=True):
        from vp import npshim, sym
        if order not in (0,1): raise sym.Unsupported("spline order")
        A = np.asarray(a); shp = np.shape(inds)[1:]; P_ = npshim.asarr(inds).reshape(len(inds),-1); out = np.empty(P_.shape[1], object)
        for k in range(P_.shape[1]):
            r = 0
            for I in np.ndindex(A.shape):
                wgt = 1
                for d, i in enumerate(I):
                    x = P_[d,k]-i; n = A.shape[d]
                    if order == 1: f = ite(And(x > -1, x < 1), ite(x >= 0, 1-x, 1+x), 0)
                    else: f = ite(And(x > -0.5, x <= 0.5), 1, 0)
                    wgt = wgt*f
                r = r+wgt*A[I]
            out[k] = r
        return npshim.asarr(out.reshape(shp))
def nlin(a, *p):
    """multilinear interpolation of a small array (numbers or terms) at a point inside, written independently"""
    a = np.asarray(a)
    if a.ndim == 0: return a[()]
    x = p[0]; r = nlin(a[len(a)-2], *p[1:])*(len(a)-1-x)+nlin(a[len(a)-1], *p[1:])*(x-len(a)+2) if len(a) > 1 else nlin(a[0], *p[1:])
    for i in range(len(a)-3,-1,-1): r = ite(x <= i+1, nlin(a[i], *p[1:])*(i+1-x)+nlin(a[i+1], *p[1:])*(x-i), r)
    return r
def close(c, a, b): return Eq(a, b) if c.symbolic else bool(abs(a-b) <= 1e-7*(1+abs(b)))

@contract(P, ["pixell.interpol.ip_linear.__call__","pixell.interpol.ip_linear.__init__","pixell.interpol.lin_derivs_forward","pixell.interpol.Interpolator.__init__"], scope="all values on 3x2 grids with one leading axis, all boxes and all points inside", samples=100)
def linear_2d(c):
    I = c.mod("interpol"); n = (3,2); v = np.array([[[c.real("v%d%d%d" % (q,i,j), sample=(-3,3)) for j in range(n[1])] for i in range(n[0])] for q in range(2)], object)
    lo = [c.real("lo%d" % i, sample=(-3,3)) for i in range(2)]; wd = [c.real("w%d" % i, lo=0.1, sample=(0.2,3)) for i in range(2)]; t = [c.real("t%d" % i, lo=0, hi=n[i]-1, sample=(0,n[i]-1)) for i in range(2)]
    x = [lo[i]+t[i]*wd[i]/(n[i]-1) for i in range(2)]; box = [lo, [lo[i]+wd[i] for i in range(2)]]
    if not c.symbolic: v = v.astype(float)
    ip = I.ip_linear(c.arr(box) if c.symbolic else np.array(box), c.arr(v.tolist()) if c.symbolic else v); r = ip(c.arr([[q] for q in x]) if c.symbolic else np.array(x)[:,None])
    for q in range(2): c.check("multilinear", close(c, r[q][0], nlin(v[q], *t)))
@contract(P, ["pixell.interpol.ip_grad.__call__","pixell.interpol.ip_grad.__init__","pixell.interpol.lin_derivs_forward"], scope="all linear functions on 3x2 grids, all boxes and points inside", samples=100)
def gradient_2d(c):
    I = c.mod("interpol"); n = (3,2); g = [c.real("g%d" % i, sample=(-3,3)) for i in range(3)]; v = [[[g[0]+g[1]*i+g[2]*j for j in range(n[1])] for i in range(n[0])]]
    lo = [c.real("lo%d" % i, sample=(-3,3)) for i in range(2)]; wd = [c.real("w%d" % i, lo=0.1, sample=(0.2,3)) for i in range(2)]; t = [c.real("t%d" % i, lo=0, hi=n[i]-1, sample=(0,n[i]-1)) for i in range(2)]
    x = [lo[i]+t[i]*wd[i]/(n[i]-1) for i in range(2)]; box = [lo, [lo[i]+wd[i] for i in range(2)]]; A = c.arr if c.symbolic else np.array
    r = I.ip_grad(A(box), A(v))(A([[q] for q in x])); c.check("exact for linear functions", close(c, r[0][0], g[0]+g[1]*t[0]+g[2]*t[1]))
@contract(P, ["pixell.utils.interpol","pixell.utils.interpolator","pixell.utils.SplineInterpolator.__init__","pixell.utils.SplineInterpolator.__call__","pixell.utils._ip_get_mode","pixell.utils._ip_prepare"], scope="all values of 2x2x2 arrays and all positions inside, orders 0 and 1, all names of the modes", samples=120, trusted=[NDI])
def interpolation(c):
    U = c.mod("utils"); v = [[[c.real("v%d%d%d" % (q,i,j), sample=(-3,3)) for j in range(2)] for i in range(2)] for q in range(2)]
    mode, order, eff = c.choose("mode", [("spline",0,0),("spline",1,1),("nn",3,0),("nearest",1,0),("lin",3,1),("linear",0,1)]); npts = c.choose("npts", [None,1])
    pts = [[c.real("p%d%d" % (d,k), lo=0, hi=1, sample=(0,1)) for k in range(npts or 1)] for d in range(2)]
    if eff == 0: [c.assume(And(*[Not(Eq(q, h)) for h in (0.5,)])) for r in pts for q in r]
    A = c.arr if c.symbolic else np.array; inds = A(pts) if npts else A([r[0] for r in pts])
    def go(): return U.interpol(A(v), inds, mode=mode, order=order)
    if c.symbolic:
        class S: ndimage = NDImage(c)
        with stub(c, U, scipy=S): r = go()
    else: r = go()
    k_ = npts or 1; c.check("shape", np.shape(r) == (2,k_))
    for q in range(2):
        for k in range(k_):
            y, x = pts[0][k], pts[1][k]
            if eff == 1: want = nlin(np.array(v[q],object), y, x)
            else: rows = [ite(x < 0.5, v[q][i][0], v[q][i][1]) for i in range(2)]; want = ite(y < 0.5, rows[0], rows[1])
            c.check("value", close(c, r[q][k], want))
@contract(P, ["pixell.enmap.at","pixell.utils.interpol"], scope="all values of 2x3 maps, all positions inside, by pixel or (plain geometries) coordinate", samples=80, trusted=[NDI, geo.CARLIN])
def at_positions(c):
    E = c.mod("enmap"); proj, unit = c.choose("how", [("plain","coord"),("plain","pix"),("car","pix")]); kw = [c.real("crpix0", sample=(-20,20)),c.real("crpix1", sample=(-20,20))], [c.real("cdelt0", lo=-80, hi=80, ne=0, sample=(-2,2)),c.real("cdelt1", ne=0, sample=(-2,2))], [c.real("crval0", sample=(-180,180)),c.real("crval1", sample=(-30,30)) if proj == "plain" else 0.0]
    w = geo.SWCS(*kw, ctype=("RA---CAR","DEC--CAR") if proj == "car" else ("","")) if c.symbolic else geo.real_wcs(proj, *kw); v = [[c.real("v%d%d" % (i,j), sample=(-3,3)) for j in range(3)] for i in range(2)]
    y, x = c.real("y", lo=0, hi=1, sample=(0,1)), c.real("x", lo=0, hi=2, sample=(0,2)); A = c.arr if c.symbolic else np.array
    if not c.symbolic and (min(y,x) < 1e-6 or y > 1-1e-6 or x > 2-1e-6): return
    def go(m): pos = A([[y],[x]]) if unit == "pix" else E.pix2sky(m.shape, w, A([[y],[x]])); return E.at(m, pos, order=1, unit=unit)
    if c.symbolic:
        U = c.mod("utils"); seen = []
        class N:
            def map_coordinates(self, a, inds, order=3, mode=None, cval=0.0, prefilter=True): seen.append((a, inds, order)); return NDImage(c).map_coordinates(a, A([[y],[x]]), order)
        class S: ndimage = N()
        with stub(c, U, scipy=S): m = E.ndmap(A(v), w); r = go(m)
        for a, i, o in seen: c.check("read at the pixel coordinates", And(o == 1, Eq(i[0][0], y), Eq(i[1][0], x)))
        if not seen: raise sym.Unsupported("interpolation not through map_coordinates")
    else: r = go(E.ndmap(np.array(v), w))
    c.check("value at the position", close(c, r[0], nlin(np.array(v,object), y, x)))
@contract(P, ["pixell.reproject.restrict_nside"], scope="all positive resolutions up to 1000 (any, mul32), rounding up, down and to the nearest", samples=150)
def nsides(c):
    R = c.mod("reproject"); x = c.real("nside", lo=1, hi=1000, sample=(1,900)); mode = c.choose("mode", ["any","mul32"]); rnd = c.choose("round", ["ceil","floor","round"]); r = R.restrict_nside(x, mode, rnd); c.assume(12*x*x > 1024)
    st = 1 if mode == "any" else 32; lo = {"ceil":0,"floor":-st,"round":-st/2}[rnd]
    c.check("multiple", Or(Eq(r % st, 0), Eq(r,1))); c.check("rounded", Or(Eq(r,1), And(r-x >= lo-1e-9, r-x <= lo+st+1e-9)))

def smooth(b, lmax=4, spin=True):
    """a smooth band-limited T,Q,U sky and its evaluation at any position"""
    from pixell import curvedsky, enmap
    ai = curvedsky.alm_info(lmax); alm = (b.nrng.normal(size=(3,ai.nelem))+1j*b.nrng.normal(size=(3,ai.nelem))); m0 = ai.lm2ind(np.arange(lmax+1),0); alm[:,m0] = alm[:,m0].real
    alm[1:,ai.lm2ind(0,0)] = 0; alm[1:,ai.lm2ind(1,0)] = 0; alm[1:,ai.lm2ind(1,1)] = 0
    return ai, alm
def ev(alm, pos):
    """T,Q,U of the sky at pos[{dec,ra},...]"""
    from pixell import curvedsky
    return curvedsky.alm2map_pos(alm, np.asarray(pos))
@bounded(P, ["pixell.utils.interpol","pixell.utils.interpolator","pixell.utils.SplineInterpolator","pixell.utils.FourierInterpolator","pixell.fft.interpol_nufft","pixell.fft.u2nu","pixell.fft.u2nu_plan"], "random arrays up to 3 dimensions, all modes and borders, points inside, at samples and outside")
def arrays(b):
    from pixell import utils as U, fft
    import scipy.ndimage as ndi
    rng = b.rng
    def ext(i, n, border): # index of a sample beyond the ends
        if 0 <= i < n: return i
        if border == "nearest": return min(max(i,0),n-1)
        if border == "wrap": return i%n
        p = 2*(n-1); i %= p; return i if i < n else p-i
    for it in range(b.N(120)):
        nd = rng.randint(1,3); dims = tuple(rng.randint(3,7) for i in range(nd)); pre = rng.choice([(),(2,),(2,2)]); dt = rng.choice([np.float64,np.float64,np.float32,complex]); a = b.nrng.normal(size=pre+dims).astype(dt)
        if dt is complex: a = a+1j*b.nrng.normal(size=a.shape)
        post = rng.choice([(5,),(2,3)]); t = 1e-4 if dt is np.float32 else 1e-9; src = a.copy()
        x = np.array([b.nrng.uniform(0,n-1,post) for n in dims]); b.case("interpol", a.shape, post, str(dt), nd)
        lin = np.zeros(pre+post,a.dtype)
        for I in np.ndindex(*(2,)*nd):
            f = np.minimum(np.floor(x).astype(int), (np.array(dims)-2).reshape((nd,)+(1,)*len(post))); fr = x-f; w = np.prod([fr[d] if I[d] else 1-fr[d] for d in range(nd)],0); lin = lin+w*a[(Ellipsis,)+tuple(f[d]+I[d] for d in range(nd))]
        for mode, order in (("lin",3),("linear",0),("spline",1)): r = U.interpol(a, x, mode=mode, order=order); b.close("linear", r, lin, t, t); b.check("data type", r.dtype == a.dtype)
        near = a[(Ellipsis,)+tuple(np.round(x).astype(int))]; safe = np.all(np.abs(x-np.floor(x)-0.5) > 1e-3,0)
        for mode, order in (("nn",3),("nearest",1),("spline",0)): b.close("nearest", U.interpol(a,x,mode=mode,order=order)[...,safe], near[...,safe], t, t)
        o = np.zeros(pre+post,a.dtype); r = U.interpol(a, x, order=1, out=o); b.check("out", r is o); b.close("linear into out", o, lin, t, t)
        if dt is np.float64:
            border = rng.choice(["nearest","wrap","mirror","constant"]); cv = rng.choice([0.0,3.5]); b.case("borders", border, cv)
            g = np.array([b.nrng.integers(0,n,post) for n in dims]); gi = tuple(g)
            c3 = U.interpol(a, g.astype(float), border="mirror"); b.close("cubic interpolation passes through the samples", c3, a[(Ellipsis,)+gi], 1e-7, 1e-7)
            ref = np.zeros(pre+post)
            for I in np.ndindex(pre): ref[I] = ndi.map_coordinates(a[I], x, order=3, mode="mirror")
            b.close("cubic", U.interpol(a, x, border="mirror"), ref, 1e-9, 1e-9); b.close("cubic by name", U.interpol(a, x, border="mirror", mode="cub", order=0), ref, 1e-9, 1e-9)
            e = np.array([b.nrng.integers(-n+1,2*n-1,post) for n in dims]); out = np.any((e < 0)|(e >= np.array(dims).reshape((nd,)+(1,)*len(post))),0)
            if border == "constant": want = np.where(out, cv, a[(Ellipsis,)+tuple(np.clip(e[d],0,dims[d]-1) for d in range(nd))]); b.close("beyond the ends: constant", U.interpol(a, e.astype(float), order=1, border=border, cval=cv), want, 1e-9, 1e-9)
            else: want = a[(Ellipsis,)+tuple(np.vectorize(lambda i: ext(i,dims[d],border),otypes=[int])(e[d]) for d in range(nd))]; b.close("beyond the ends: "+border, U.interpol(a, e.astype(float), order=1, border=border), want, 1e-9, 1e-9)
            ip = U.interpolator(a, npre=rng.choice([len(pre),-nd]) if pre else 0, border="mirror"); b.close("interpolator used twice", ip(x), ref, 1e-9, 1e-9); b.close("interpolator used twice", ip(x), ref, 1e-9, 1e-9); b.close("interpol with an interpolator", U.interpol(a, x, ip=ip), ref, 1e-9, 1e-9)
            ia = b.nrng.integers(-20,20,dims); b.close("cubic interpolation of integers", U.interpol(ia, g.astype(float), border="mirror"), ia[gi]*1.0, 1e-7, 1e-7)
        # fourier: the trigonometric polynomial through the samples
        odd = tuple(n if n%2 else n+1 for n in dims); a = b.nrng.normal(size=pre+odd); cpx = rng.random() < 0.4
        if cpx: a = a+1j*b.nrng.normal(size=a.shape)
        x = np.array([b.nrng.uniform(-n,2*n,post) for n in odd]); fa = np.fft.fftn(a, axes=tuple(range(-nd,0))); want = np.zeros(pre+post, complex)
        for K in np.ndindex(*odd): ph = sum(np.fft.fftfreq(odd[d])[K[d]]*x[d] for d in range(nd)); want += fa[(Ellipsis,)+K+(None,)*len(post)]*np.exp(2j*np.pi*ph)
        want /= np.prod(odd); want = want if cpx else want.real; b.case("fourier", a.shape, post, cpx)
        for pc in ("plan","fft","none"): b.close("fourier: "+pc, U.FourierInterpolator(a, npre=len(pre), precompute=pc)(x), want, 1e-8, 1e-8)
        b.close("fourier", U.interpol(a, x, mode=rng.choice(["fourier","nufft","fft"])), want, 1e-8, 1e-8)
        b.close("single position", np.asarray(U.interpol(a, x.reshape(nd,-1)[:,0], mode="lin", border="wrap")).reshape(pre), U.interpol(a, x.reshape(nd,-1)[:,:1], mode="lin", border="wrap").reshape(pre), 1e-12, 1e-12)
    b.raises("unknown mode", lambda: U.interpol(np.zeros((3,3)), [[1],[1]], mode="foo"), ValueError)
@bounded(P, ["pixell.interpol.map_coordinates","pixell.interpol.spline_filter"], "random arrays of 1 to 3 dimensions, conv and spline modes, all borders, transposes and derivatives")
def fortran_kernels(b):
    from pixell import interpol as I
    import scipy.ndimage as ndi
    rng = b.rng
    for it in range(b.N(100)):
        nd = rng.randint(1,3); dims = tuple(rng.randint(4,8) for i in range(nd)); pre = rng.choice([(),(2,)]); a = b.nrng.normal(size=pre+dims); npt = 6; x = np.array([b.nrng.uniform(0,n-1,npt) for n in dims]); order = rng.choice([0,1,3]); mode = rng.choice(["spline","spline","conv"]); border = rng.choice(["cyclic","zero","nearest","mirror"])
        b.case("map_coordinates", dims, pre, order, mode, border); src = a.copy(); r = I.map_coordinates(a, x, mode=mode, order=order, border=border); b.check("argument kept", np.array_equal(a,src)); b.check("shape", r.shape == pre+(npt,))
        y = np.array([b.nrng.uniform(-2,n+1,npt) for n in dims]); pad = np.pad(a, [(0,0)]*len(pre)+[(3,3)]*nd, **{"zero":dict(mode="constant"),"nearest":dict(mode="edge"),"cyclic":dict(mode="wrap"),"mirror":dict(mode="reflect")}[border]); om = rng.choice([("conv",1),("conv",3),("spline",1),("lanczos",2)]) # (dims are at least 4)
        y = np.clip(y, None, np.array(dims)[:,None]); b.close("beyond the ends", I.map_coordinates(a, y, mode=om[0], order=om[1], border=border), I.map_coordinates(pad, y+3, mode=om[0], order=om[1], border="nearest") if om[0] != "lanczos" or border != "x" else 0, 1e-9, 1e-9)
        # the operation is linear in the data: its transpose
        v = b.nrng.normal(size=r.shape); t = np.zeros_like(a); I.map_coordinates(t, x, v.copy(), mode=mode, order=order, border=border, trans=True); b.close("transpose", np.sum(t*a), np.sum(r*v), 1e-9, 1e-9)
        d = I.map_coordinates(a, x, mode=mode, order=order, border=border, deriv=True); b.check("shape of derivatives", d.shape == (nd,)+r.shape); vd = b.nrng.normal(size=d.shape); t = np.zeros_like(a); I.map_coordinates(t, x, vd.copy(), mode=mode, order=order, border=border, trans=True, deriv=True); b.close("transpose of the derivative", np.sum(t*a), np.sum(d*vd), 1e-9, 1e-9)
        if order == 3 and mode == "spline":
            for k in range(nd):
                h = 1e-5; e = np.zeros((nd,1)); e[k] = h; xi = np.clip(x, 0.01, None); b.close("derivative", I.map_coordinates(a,xi,order=3,border=border,deriv=True)[k], (I.map_coordinates(a,xi+e,order=3,border=border)-I.map_coordinates(a,xi-e,order=3,border=border))/(2*h), 1e-4, 1e-4)
        if order == 3 and mode == "spline" and border == "cyclic": # the periodic cubic spline through the samples
            f = np.fft.fftn(a, axes=tuple(range(-nd,0)))
            for k in range(nd): w = (4+2*np.cos(2*np.pi*np.fft.fftfreq(dims[k])))/6; f = f/w.reshape((-1,)+(1,)*(nd-1-k))
            cf = np.fft.ifftn(f, axes=tuple(range(-nd,0))).real; want = np.zeros(r.shape)
            B3 = lambda t: np.where(np.abs(t) < 1, (4-6*t**2+3*np.abs(t)**3)/6, np.where(np.abs(t) < 2, (2-np.abs(t))**3/6, 0))
            for J in np.ndindex(*(4,)*nd):
                i = np.floor(x).astype(int)+np.array(J)[:,None]-1; w = np.prod([B3(x[d]-i[d]) for d in range(nd)],0); want = want+w*cf[(Ellipsis,)+tuple(i[d]%dims[d] for d in range(nd))]
            b.close("periodic cubic spline", r, want, 1e-6, 1e-6); flt = I.spline_filter(a, order=3, border="cyclic", ndim=nd); b.close("filtered beforehand", I.map_coordinates(flt, x, order=3, border="cyclic", prefilter=False), want, 1e-6, 1e-6)
        if order == 1:
            want = np.zeros(r.shape)
            for J in np.ndindex(*(2,)*nd): i = np.minimum(np.floor(x).astype(int),np.array(dims)[:,None]-2); fr = x-i; want = want+np.prod([fr[d] if J[d] else 1-fr[d] for d in range(nd)],0)*a[(Ellipsis,)+tuple(i[d]+J[d] for d in range(nd))]
            b.close("linear", r, want, 1e-9, 1e-9); f = a.astype(np.float32); b.close("single precision", I.map_coordinates(f, x.astype(np.float32), mode=mode, order=1, border=border), want, 1e-4, 1e-4)
        if order == 0: ok = np.all(np.abs(x-np.floor(x)-0.5) > 1e-6,0); b.close("nearest", r[...,ok], a[(Ellipsis,)+tuple(np.round(x).astype(int))][...,ok], 1e-12, 1e-12)
@bounded(P, ["pixell.interpol.build","pixell.interpol.ip_ndimage","pixell.interpol.ip_linear","pixell.interpol.ip_grad"], "smooth functions of 1 to 2 variables with 1 to 3 values")
def tables(b):
    from pixell import interpol as I
    rng = b.rng
    for it in range(b.N(12)):
        nd, no = rng.randint(1,2), rng.randint(1,3); k = b.nrng.uniform(0.3,1.2,(no,nd)); ph = b.nrng.uniform(0,6,no); f = lambda x: np.sin(np.tensordot(k,x,1)+ph.reshape((no,)+(1,)*(x.ndim-1))); lo = b.nrng.uniform(-2,0,nd); box = [lo, lo+b.nrng.uniform(0.5,2,nd)]; lim = np.full(no, 10**rng.uniform(-3,-2))
        for cls, fac in ((I.ip_linear,1.5),(I.ip_ndimage,3)):
            b.case("build", nd, no, cls.__name__, lim[0]); kw = {} if cls is I.ip_linear else dict(order=1); ip, ob = I.build(f, cls, box, lim, return_obox=True, **kw); x = np.array([b.nrng.uniform(box[0][i],box[1][i],200) for i in range(nd)])
            b.check("as accurate as asked for", np.all(np.abs(ip(x)-f(x)) <= fac*lim[:,None]), np.max(np.abs(ip(x)-f(x)),-1)/lim); v = f(x); b.check("range of values", np.all(ob[0] <= v.min(-1)+fac*lim) and np.all(ob[1] >= v.max(-1)-fac*lim), (ob,v.min(-1),v.max(-1)))
@bounded(P, ["pixell.enmap.at","pixell.enmap.project","pixell.enmap.sky2pix"], "maps of up to 40x40 pixels in several projections, linear and cubic; all block sizes")
def maps(b):
    from pixell import enmap, utils as U, wcsutils
    rng = b.rng
    for it in range(b.N(40)):
        proj = rng.choice(["car","cea","tan","zea"]); res = rng.uniform(0.1,0.8)*U.degree; pos = (rng.uniform(-0.5,0.5),rng.choice([0.3,3.1,-3.0])); s, w = enmap.geometry(pos=pos, shape=(rng.randint(30,40),rng.randint(30,40)), res=res, proj=proj)
        if rng.random() < 0.5: s, w = enmap.slice_geometry(s, w, (slice(None,None,rng.choice([1,-1])),slice(None,None,rng.choice([1,-1]))))
        pre = rng.choice([(),(2,)]); m = enmap.ndmap(b.nrng.normal(size=pre+tuple(s[-2:])), w); pix = np.array([b.nrng.uniform(0.01,n-1.01,9) for n in s[-2:]]); sky = enmap.pix2sky(s,w,pix); sky[1] += 2*np.pi*b.nrng.integers(-1,2,9)
        b.case("at", proj, s, pos); lin = U.interpol(m, pix, order=1); b.close("at: coordinates", m.at(sky, order=1), lin, 1e-5, 1e-5); b.close("at: pixels", m.at(pix, order=1, unit="pix"), lin, 1e-9, 1e-9); b.close("at: pixel centres", m.at(m.posmap(), mode="nn")[...,1:-1,1:-1], m[...,1:-1,1:-1], 1e-6, 1e-6)
        far = np.array([[s[-2]+30.,-40],[5,s[-1]+20.]]); b.check("at: outside", np.all(m.at(far, order=1, unit="pix", cval=2.5) == 2.5)); b.close("at: cubic", m.at(sky), U.interpol(m,pix,border="constant"), 1e-4, 1e-4)
        # project
        p2 = rng.choice(["car","tan","cea"]); s2, w2 = enmap.geometry(pos=(pos[0]+rng.uniform(-0.3,0.3)*res*20,pos[1]+rng.uniform(-0.3,0.3)*res*20), shape=(rng.randint(5,45),rng.randint(5,45)), res=res*rng.uniform(0.5,1.5), proj=p2); order = rng.choice([0,1,3]); bs = rng.choice([3,7,1000]); cv = rng.choice([0,0,2.5])
        pp = enmap.sky2pix(m.shape, m.wcs, enmap.posmap(s2,w2)); mar = {0:0.51,1:1.01,3:14}[order]; n = np.array(s[-2:])[:,None,None]; ins = np.all((pp >= mar)&(pp <= n-1-mar),0); outs = np.any((pp < -1.01)|(pp > n+0.01),0)
        if order == 0: ins &= np.all(np.abs(pp-np.floor(pp)-0.5) > 1e-3,0)
        if order == 3 and cv: cv = 0
        b.case("project", proj, p2, s, s2, order, bs, cv); r = enmap.project(m, s2, w2, order=order, bsize=bs, cval=cv); b.check("geometry", r.shape == pre+tuple(s2[-2:]) and wcsutils.equal(r.wcs,w2)); want = U.interpol(m, pp, order=order, border="constant"); t = 1e-5 if order < 3 else 2e-2; b.close("project: inside", r[...,ins], want[...,ins], t, t)
        if order < 3: b.check("project: outside", np.allclose(r[...,outs],cv), np.unique(r[...,outs])[:5])
        if order < 3: ip = U.interpolator(m, npre=len(pre), order=order, border="constant"); b.close("project: with an interpolator", enmap.project(m,s2,w2,ip=ip,bsize=bs)[...,ins], want[...,ins], 1e-6, 1e-6)
        # the same pixels
        y0, x0 = rng.randint(-6,10), rng.randint(-6,10); h, wd = rng.randint(4,30), rng.randint(4,30); s3, w3 = (h,wd), w.deepcopy(); w3.wcs.crpix -= [x0,y0]; b.case("shifted", y0, x0, h, wd); r = m.project(s3, w3, cval=cv); want = np.full(pre+s3, float(cv))
        for y in range(h):
            for x in range(wd):
                if 0 <= y+y0 < s[-2] and 0 <= x+x0 < s[-1]: want[...,y,x] = m[...,y+y0,x+x0]
        b.close("project to shifted pixels", r, want, 1e-9, 1e-9); b.check("project to the same geometry", np.array_equal(m.project(m.shape,m.wcs), m)); q = m.project((s[-2]-3,s[-1]+2), m.wcs); b.check("project to another shape", q.shape[-2:] == (s[-2]-3,s[-1]+2) and np.allclose(q[...,:,:s[-1]], m[...,:s[-2]-3,:]))
@bounded(P, ["pixell.reproject.healpix2map","pixell.reproject.map2healpix","pixell.reproject.rot2euler","pixell.reproject.inv_euler","pixell.enmap.rotate_pol"], "band-limited IQU skies, nside 8 to 64, maps of 4 degree pixels, with and without rotation")
def healpix(b):
    from pixell import enmap, utils as U, reproject as R, curvedsky, coordinates
    import healpy
    rng = b.rng; g2c = lambda p, a, c: coordinates.transform(a, c, p)
    def pclose(name, r, want, t): # near the poles of the input Q and U turn too fast for interpolation
        b.close(name, r[0], want[0], 0, t)
        if len(want) > 1: d = np.abs(np.asarray(r)[1:]-want[1:]); b.check(name+": polarisation", np.median(d) < t*0.5, np.median(d)/t)
    for it in range(b.N(8)):
        ai, alm = smooth(b); rot = rng.choice([None,"gal,cel","cel,gal","equ,gal",tuple(b.nrng.uniform(-3,3,3))]); b.case("healpix", rot)
        ralm = alm.copy()
        if rot is not None: curvedsky.rotate_alm(ralm, *R.rot2euler(rot), inplace=True)
        if isinstance(rot, str): # the rotation is the one between the systems
            q = np.array([[0.3,2.0,-1.1],[0.2,-0.7,1.0]]); a, c = rot.split(","); p = g2c(q[::1], c, a); b.close("T after the rotation is T at the position in the old system", ev(ralm, q[::-1])[0], ev(alm, p[::-1])[0], 1e-3, 1e-3)
        ns = 32; hm = curvedsky.alm2map_healpix(alm, nside=ns); s, w = enmap.geometry(pos=(rng.uniform(-1,1),rng.uniform(-3,3)), shape=(rng.randint(3,9),rng.randint(3,9)), res=4*U.degree, proj=rng.choice(["car","tan"])) ; want = ev(ralm, enmap.posmap(s,w)); sc = np.std(hm)
        for spin in ([0,2],[0]):
            if spin == [0] and rot is not None: wt = want[:1]
            else: wt = want
            r = R.healpix2map(hm, s, w, rot=rot, method="spline", spin=spin, bsize=rng.choice([10,100000])); pclose("healpix2map: linear", r[:len(wt)], wt, 0.06*sc)
        rh = R.healpix2map(hm, s, w, rot=rot, lmax=8, niter=3); b.close("healpix2map: harmonic", rh, want, 0, 1e-3*sc); r0 = R.healpix2map(hm, s, w, rot=rot, method="spline", order=0); pclose("healpix2map: nearest", r0, want, 0.35*sc)
        o = enmap.zeros((3,)+tuple(s[-2:]), w); rr = R.healpix2map(hm, out=o, rot=rot, method="spline"); b.check("out", rr is o and np.allclose(o, R.healpix2map(hm,s,w,rot=rot,method="spline")))
        e = R.healpix2map(hm[0], s, w, rot=rot, method="spline", extensive=True); b.close("extensive", e, R.healpix2map(hm[0],s,w,rot=rot,method="spline")*enmap.pixsizemap(s,w)/(4*np.pi/hm.shape[-1]), 1e-6, 1e-9)
        fs, fw = enmap.fullsky_geometry(res=3*U.degree); fm = curvedsky.alm2map(alm, enmap.zeros((3,)+fs,fw)); n2 = rng.choice([4,8]); th, ph = healpy.pix2ang(n2, np.arange(12*n2**2)); want = ev(ralm, [np.pi/2-th,ph]); r = R.map2healpix(fm, nside=n2, rot=rot, lmax=8); b.close("map2healpix: harmonic", r, want, 0, 1e-5*sc)
        ipos = np.array([np.pi/2-th,ph])
        r = R.map2healpix(fm, nside=n2, rot=rot, method="spline", order=rng.choice([1,3]), boundary="wrap", bsize=rng.choice([50,100000])); bad = np.abs(r-want) > 0.05*sc; b.check("map2healpix: splines", np.mean(np.any(bad,0)) < 0.06, np.mean(np.any(bad,0)))
        o = np.zeros((3,12*n2**2)); R.map2healpix(fm, out=o, rot=rot, method="spline", boundary="wrap"); b.close("map2healpix: out", o, R.map2healpix(fm, nside=n2, rot=rot, method="spline", boundary="wrap"), 1e-9, 1e-9)
        one = R.map2healpix(fm[0], nside=n2, rot=rot, method="spline", boundary="wrap", spin=[0]); b.close("map2healpix: one component", one, o[0], 1e-9, 1e-9); src = fm.copy(); e = R.map2healpix(fm[0]*fm.pixsizemap(), nside=n2, rot=rot, lmax=8, extensive=True); b.close("map2healpix: extensive", e, want[0]*4*np.pi/(12*n2**2), 0, 1e-5*sc); b.check("argument kept", np.array_equal(fm,src))
@bounded(P, ["pixell.reproject.thumbnails","pixell.reproject.thumbnails_ivar","pixell.enmap.thumbnail_geometry","pixell.enmap.neighborhood_pixboxes"], "band-limited IQU skies, full-sky maps of half-degree pixels, positions up to 60 degrees from the equator, all methods and projections")
def thumbnails(b):
    from pixell import enmap, utils as U, reproject as R, curvedsky
    rng = b.rng
    for it in range(b.N(5)):
        ai, alm = smooth(b); s, w = enmap.fullsky_geometry(res=0.5*U.degree); m = curvedsky.alm2map(alm, enmap.zeros((3,)+s,w)); sc = np.std(m)
        co = np.array([[rng.uniform(-1,1),rng.choice([0.2,3.13,-3.13,6.5,-2])] for i in range(3)]); meth = rng.choice(["mixed","spline","nufft"]); proj = rng.choice(["car","tan",None]); r = 3*U.degree; b.case("thumbnails", co, meth, proj); src = m.copy()
        t = R.thumbnails(m, co, r=r, res=0.5*U.degree, proj=proj, apod=3*U.degree, method=meth); b.check("shape", t.shape[:2] == (3,3)); b.check("argument kept", np.array_equal(m,src)); opos = t.posmap(); near = np.max(np.abs(opos),0) <= r*0.99
        b.check("the radius is covered", np.abs(opos[0]).max() >= r*0.95 and np.abs(opos[1]).max() >= r*0.95)
        for i in range(3):
            ra = alm.copy(); curvedsky.rotate_alm(ra, -co[i,1], 0, 0, inplace=True); curvedsky.rotate_alm(ra, 0, co[i,0], 0, inplace=True); want = ev(ra, opos); b.close("thumbnail shows the sky around its position", t[i][:,near], want[:,near], 0, 0.03*sc)
        one = R.thumbnails(m, co[1], r=r, res=0.5*U.degree, proj=proj, apod=3*U.degree, method=meth); b.close("one position", one, t[1], 1e-6, 1e-6*sc); np_ = R.thumbnails(m[0], co, r=r, res=0.5*U.degree, proj=proj, apod=3*U.degree, method=meth); b.close("one component", np_, t[:,0], 1e-6, 1e-6*sc)
        iv = enmap.ndmap(np.array(m[0]-m[0].min()+1), w); tv = R.thumbnails_ivar(iv, co, r=r, res=0.25*U.degree, proj="car"); pz = tv.pixsizemap()
        for i in range(3):
            ra = alm[:1].copy(); curvedsky.rotate_alm(ra, -co[i,1], 0, 0, inplace=True, ); curvedsky.rotate_alm(ra, 0, co[i,0], 0, inplace=True); 
            want = (curvedsky.alm2map_pos(ra, opos2 := tv.posmap())[0]-m[0].min()+1)/(s[0]*0+1); ipx = (0.5*U.degree)**2; dec = enmap.posmap(tv.shape, tv.wcs)[0]
            nn = np.max(np.abs(opos2),0) <= r*0.5; src_dec = co[i,0]; ratio = tv[i][nn]/(want[nn]*pz[nn]/(ipx*np.cos(src_dec))); b.check("extensive quantities scale with the pixel area", np.all(np.abs(ratio-1) < 0.15), (ratio.min(),ratio.max()))

@bounded(P, ['pixell.enmap.ndmap.at', 'pixell.enmap.ndmap.project'], "the map methods of these functions: every argument, and the defaults (one call each)", name="methods_stand_for_functions")
def methods_stand_for_functions(b):
    from pixell import enmap
    from vp.forward import forwarding
    w = geo.real_wcs("car", [3.0,2.0], [-10.0,10.0], [0.0,0.0]); m = enmap.ndmap(np.arange(20.0).reshape(4,5), w)
    forwarding(b, m, enmap.ndmap, enmap, ['at', 'project'])
    forwarding(b, enmap.Geometry((4,5), w), enmap.Geometry, enmap, [])
