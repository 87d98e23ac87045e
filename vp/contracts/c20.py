"""C20: wavelet and unified harmonic transforms give the map back."""
import math
import numpy as np
from vp.core import *
from vp import geo, npshim, sym
P = "C20"
z3 = sym.z3
def tol(c, a, b, t=1e-9): return Eq(a, b) if c.symbolic else bool(abs(a-b) <= t*(1+abs(b)))
MON = "the low-pass kernels grow with the scale and stay within [0,1] (checked concretely by the bounded run of the same contract)"
for cls in ("Butterworth","ButterTrim"):
    @contract(P, ["pixell.wavelets.%s.__call__" % cls], name="partition_%s" % cls, scope="all multipoles and kernels, 1 to 4 scales", samples=120, trusted=[MON])
    def partition(c, cls=cls):
        W = c.mod("wavelets"); n = c.choose("n", [1,2,3,4])
        if not c.symbolic:
            lmin = c.int("lmin", lo=1, hi=50); st = c.choose("step", [2,1.5,3]); bs = getattr(W, cls)(step=st, shape=c.choose("shape", [7,4,12]), lmin=lmin, lmax=int(math.ceil(lmin*st**(n+.3)))); l = np.abs(np.array([c.real("l", lo=0, hi=1e4, sample=(0,3000)), 0, lmin, bs.lmax]))
            ks = [bs.kernel(i, l) for i in range(bs.n)]; c.check("kernels grow", all(np.all(q >= p-1e-15) for p, q in zip(ks, ks[1:])) and all(np.all((k >= 0)&(k <= 1)) for k in ks)); f = [bs(i, l) for i in range(bs.n)]
            c.check("squares add up to one", np.allclose(sum(x**2 for x in f), 1, atol=1e-12)); c.check("never negative", all(np.all(x >= 0) for x in f))
            if cls == "ButterTrim": c.check("nothing above the scale's lmax", all(np.all(np.abs(x[l > L_]) == 0) for x, L_ in zip(f[:-1], bs.lmaxs))); c.check("last scale goes to lmax", bs.lmaxs[-1] == bs.lmax)
            return
        bs = getattr(W, cls)(lmin=10, lmax=10*2**n+1); c.check("scales", bs.n == n); K = [c.real("K%d" % i, lo=0, hi=1) for i in range(n)]; c.assume(*[p <= q for p, q in zip(K, K[1:])]); bs.kernel = lambda i, l: c.arr([K[i]]); l = c.arr([c.real("l", lo=0)])
        f = [bs(i, l) for i in range(n)]; c.check("squares add up to one", Eq(sum(x[0]*x[0] for x in f), 1)); c.check("never negative", And(*[x[0] >= 0 for x in f]))
@contract(P, ["pixell.wavelets.trim_kernel"], scope="all kernel values and trims", samples=200)
def trimming(c):
    W = c.mod("wavelets"); a, b = c.real("a", lo=0, hi=1, sample=(0,1)), c.real("b", lo=0, hi=1, sample=(0,1)); t = c.real("trim", lo=0, hi=0.4, sample=(0,.3)); f = lambda v: W.trim_kernel(c.arr([v]) if c.symbolic else np.array([v]), t)[0]
    x, y, z = f(a), f(b), f(1-a); e = 0 if c.symbolic else 1e-12; c.check("between 0 and 1", And(x >= 0, x <= 1)); c.check("keeps the order", Implies(a <= b, x <= y+e) if c.symbolic else (a > b or x <= y+e)); c.check("ends become exact", And(tol(c, f(0), 0), tol(c, f(1), 1))); c.check("symmetric", tol(c, x+z, 1))
    if not c.symbolic: return
    c.check("clips a quarter", Implies(And(a*(1+2*t)-t >= 0, a*(1+2*t)-t <= 1), Eq(x, a*(1+2*t)-t)))
@contract(P, ["pixell.wavelets.CosineNeedlet.__call__","pixell.wavelets.CosineNeedlet.__init__"], scope="all multipoles between the first and the last peak, five sets of peaks", samples=150, trusted=["cos(pi/2-x) = sin(x), sin(0) = 0, cos(0) = 1"])
def cosine_partition(c):
    W = c.mod("wavelets"); pk = c.choose("peaks", [[0,10],[10,20,50],[1,2,3,4],[5,100,101,400],[0,1]]); pks = np.array(pk); l = c.real("l", lo=pk[0], hi=pk[-1], sample=(pk[0],pk[-1])); bs = W.CosineNeedlet(pks); la = c.arr([l]) if c.symbolic else np.array([l, pk[0], pk[-1]]+pk)
    c.check("bounds", bs.n == len(pk) and bs.lmin == pk[0] and bs.lmax == pk[-1] and list(bs.lmaxs) == pk[1:]+[pk[-1]])
    f = [bs(i, la) for i in range(bs.n)]
    if not c.symbolic: c.check("squares add up to one", np.allclose(sum(x**2 for x in f), 1)); c.check("one at its own peak", all(np.isclose(f[i][3+i], 1) for i in range(bs.n))); return
    for i in range(len(pk)-1):
        a = c.pi*(l-pk[i])/(pk[i+1]-pk[i])/2; b2 = c.pi*(pk[i+1]-l)/(pk[i+1]-pk[i])/2; c.assume(Eq(sym.ufun("cos", b2), sym.ufun("sin", a)))
    s = sum(x[0]*x[0] for x in f)
    c.assume(Implies(Eq(l, pk[-1]), And(Eq(sym.ufun("cos", c.pi*(pk[-1]-l)/(pk[-1]-pk[-2])/2), 1)))); c.check("squares add up to one", Eq(s, 1))

@contract(P, ["pixell.wavelets.HaarTransform.map2wave","pixell.wavelets.HaarTransform.wave2map","pixell.enmap.downgrade","pixell.enmap.upgrade"], scope="all values of small maps at listed sizes, 1 and 2 levels", samples=40)
def haar_values(c):
    W = c.mod("wavelets"); E = c.mod("enmap"); ny, nx, nl = c.choose("case", [(2,2,1),(3,2,1),(4,3,2),(1,5,2)]); v = [[c.real("v%d%d" % (i,j), sample=(-9,9)) for j in range(nx)] for i in range(ny)]
    w = geo.real_wcs("car", [c.choose("cr", [1,2,3]),1], [-1.0,1.0], [0.0,0.0]); m = E.ndmap(c.arr(v) if c.symbolic else np.array(v), w); H = W.HaarTransform(nl, ref=None if c.symbolic else c.choose("ref", [None,[0,0]])); wv = H.map2wave(m); c.check("levels", len(wv.maps) == nl+1 and tuple(wv.maps[nl].shape) == (ny,nx)); r = H.wave2map(wv)
    for i in range(ny):
        for j in range(nx): c.check("map back", tol(c, r[i,j], v[i][j]))

# ---- bounded ----
def lmof(ai):
    """the (l,m) of every element of an alm layout, from its defining formula"""
    r = np.zeros((ai.nelem,2), int)
    for m in range(ai.mmax+1):
        for l in range(m, ai.lmax+1): r[int(ai.mstart[m])+l*ai.stride] = l, m
    return r
def basis(b, W, lmin=None, lmax=None, R=None):
    k = R.integers(0,3); st = R.choice([1.5,2,3]); sh = R.choice([5,7,12])
    return [lambda: W.Butterworth(step=st, shape=sh, lmin=lmin, lmax=lmax, tol=1e-14), lambda: W.ButterTrim(step=st, shape=sh, trim=R.choice([1e-2,1e-3]), lmin=lmin, lmax=lmax), lambda: W.DigitalButterTrim(step=st, shape=sh, lmin=lmin, lmax=lmax)][k]()
@bounded(P, ["pixell.wavelets.Butterworth._finalize","pixell.wavelets.ButterTrim._finalize","pixell.wavelets.DigitalButterTrim._finalize","pixell.wavelets.DigitalButterTrim.__call__","pixell.wavelets.digitize","pixell.wavelets.Butterworth.with_bounds"], "random steps, shapes, trims, lmin and lmax")
def bases(b):
    from pixell import wavelets as W; R = b.nrng
    for it in range(b.N(80)):
        lmin = int(R.integers(1,60)); lmax = int(lmin*R.uniform(3.2,60)); bs = basis(b, W, R=R); b.case(it, type(bs).__name__, vars(bs), lmin, lmax); v = {k: getattr(bs, k) for k in ("step","shape")}; bs = bs.with_bounds(lmin, lmax); b.check("bounds and settings kept", bs.lmin == lmin and bs.lmax == lmax and all(getattr(bs,k) == v[k] for k in v))
        l = np.concatenate([np.arange(0, lmax+5.), R.uniform(0,2*lmax,20)]); l = np.round(l) if isinstance(bs, W.DigitalButterTrim) else l; f = np.array([bs(i, l) for i in range(bs.n)]); b.close("squares add up to one", np.sum(f**2,0), 1+0*l, atol=1e-12); b.check("never negative", f >= 0); b.check("scales", bs.n == len(bs.lmaxs) and bs.lmaxs[-1] == lmax)
        for i in range(bs.n-1):
            tl = 0 if not isinstance(bs, W.Butterworth) else bs.tol**.5*1.1+1e-6
            b.check("negligible above the scale's lmax", np.abs(f[i][l > bs.lmaxs[i]]) <= tl, (i, bs.lmaxs[i]))
        if not isinstance(bs, W.DigitalButterTrim):
            mid = [np.sum(l*x**2)/np.sum(x**2) for x in f]; b.check("ordered by scale", np.all(np.diff(mid) > 0)); b.check("half of the power passes each border", all(abs(np.sum(bs(j, np.array([lmin*bs.step**(i+.5)]))**2 for j in range(i+1)) - .5) < 1e-9 if False else abs(sum(float(bs(j, np.array([lmin*bs.step**(i+.5)]))[0])**2 for j in range(i+1))-.5) < 1e-9 for i in range(bs.n-1)))
        else: b.check("on or off", np.all((f == 0)|(f == 1)))
@bounded(P, ["pixell.wavelets.WaveletTransform.__init__","pixell.wavelets.WaveletTransform.map2wave","pixell.wavelets.WaveletTransform.wave2map","pixell.wavelets.WaveletTransform.get_ls","pixell.wavelets.WaveletTransform._prepare_filter","pixell.wavelets.make_wavelet_geometry_flat","pixell.wavelets.make_wavelet_geometry_curved","pixell.enmap.resample_fft"], "random flat maps up to 60x80 and coarse full-sky maps, three bases, subsets of the scales")
def transforms(b):
    from pixell import enmap, wavelets as W, uharm, utils, curvedsky, multimap; R = b.nrng
    for it in range(b.N(24)):
        flat = R.random() < .65; pre = [(),(1,),(2,),(3,),(2,1)][R.integers(0,5)] if flat else [(),(1,)][R.integers(0,2)]; bs = basis(b, W, R=R)
        if flat: shape, wcs = enmap.geometry(pos=(0,0), res=R.uniform(.2,1.)*utils.degree/R.choice([1,10]), shape=(int(R.integers(24,61)),int(R.integers(24,81))), proj=R.choice(["car","tan","cea"])); uht = uharm.UHT(shape, wcs, mode="flat"); m = enmap.rand_gauss(pre+shape, wcs)
        else:
            shape, wcs = enmap.fullsky_geometry(res=R.choice([3,4,5])*utils.degree); lm = int(R.integers(14,30)); uht = uharm.UHT(shape, wcs, mode="curved", lmax=lm); ai = curvedsky.alm_info(lmax=lm); a = R.normal(size=pre+(ai.nelem,))+1j*R.normal(size=pre+(ai.nelem,)); a[...,:lm+1] = a[...,:lm+1].real; m = curvedsky.alm2map(a, enmap.zeros(pre+shape, wcs))
            if R.random() < .25: bs = W.CosineNeedlet(np.array(sorted({0,lm}|{int(x) for x in R.integers(2,lm,2)})))
        b.case(it, "flat" if flat else "curved", pre, shape, type(bs).__name__, vars(bs) if not hasattr(bs,"profiles") else ""); wt = W.WaveletTransform(uht, basis=bs); m0 = m.copy(); w = wt.map2wave(m); b.eq("argument kept", m, m0); tl = 1e-8*np.abs(m).max()
        if isinstance(bs, W.Butterworth): tl *= 100
        b.check("geometry", wt.shape == tuple(shape) and wt.wcs is wcs and tuple(wt.geometry[0]) == tuple(shape) and wt.geometry[1] is wcs); b.check("levels", wt.nlevel == w.nmap == wt.basis.n == len(wt.filters) == len(wt.norms) == len(wt.lmids)); b.check("leading axes", w.pre == pre and all(x.shape[:-2] == pre for x in w.maps)); w0 = w.copy()
        o = wt.wave2map(w); b.close("map back", o, m, atol=tl); b.eq("argument kept", w, w0); om = enmap.rand_gauss(m.shape, wcs); r = wt.wave2map(w, omap=om); b.close("map back in place", om, m, atol=tl)
        w2 = multimap.multimap([enmap.rand_gauss(x.shape, x.wcs) for x in w.maps]); wt.map2wave(m, owave=w2); b.close("coefficients in place", w2, w); b.close("linear", wt.map2wave(3*m), 3*w, atol=1e-9*np.abs(w).max()); sc = sorted({int(x) for x in R.integers(0,wt.nlevel,2)}); fv = None if R.random() < .5 else float(R.choice([7.,np.nan])); w3 = wt.map2wave(m, scales=sc, fill_value=fv)
        for i in range(wt.nlevel): b.close("asked for" if i in sc else "left out", w3.maps[i], w.maps[i] if i in sc else np.full(w.maps[i].shape, 0. if fv is None else fv), atol=1e-12)
        # each level holds the band its filter passes, normalised to the power spectrum
        i = int(R.integers(0,wt.nlevel)); z = multimap.zeros([(pre+tuple(g[0][-2:]),g[1]) for g in wt.geometries], m.dtype); z.maps[i] = w.maps[i]; part = wt.wave2map(z); l = uht.l; F2 = wt.basis(i, np.asarray(l, float))**2
        if flat: want = enmap.ifft(enmap.fft(m, normalize=False)*F2, normalize=False).real/m.npix; nrm = np.sum(F2)/uht.area
        else: f2 = F2; want = curvedsky.alm2map(curvedsky.almxfl(curvedsky.map2alm(m, ainfo=ai, spin=0), f2), m*0, spin=0) if pre != (3,) else None; nrm = np.sum(F2*(2*l+1))/(4*np.pi)
        b.close("a level is its band of the map", part, want, atol=tl*3); 
        if not np.any(F2): b.check("finite", np.isfinite(wt.norms[i]) and np.isfinite(wt.lmids[i])); continue
        b.close("normalisation", wt.norms[i]**2, nrm, rtol=2e-2 if isinstance(bs, W.Butterworth) else 1e-6); lm_ = np.sum(F2*l*(1 if flat else 2*l+1))/np.sum(F2*(1 if flat else 2*l+1)); b.close("typical multipole", wt.lmids[i], lm_, rtol=2e-2)
        if flat and it < 8:
            ow = W.WaveletTransform(uht, basis=bs, ores=float(np.max(enmap.pixshapebounds(shape, wcs)))); b.close("fixed resolution", ow.wave2map(ow.map2wave(m)), m, atol=tl)
            if not isinstance(bs, W.DigitalButterTrim): vt = wt.get_variance_transform(); b.check("variance transform", vt.nlevel == wt.nlevel and np.allclose(vt.norms, wt.norms**2) and [tuple(g[0]) for g in vt.geometries] == [tuple(g[0]) for g in wt.geometries])
        if not flat: fl = 1/(1.+np.arange(uht.lmax+1)); b.close("prefilter", wt.wave2map(wt.map2wave(m, fl=fl)), curvedsky.alm2map(curvedsky.almxfl(curvedsky.map2alm(m, ainfo=ai, spin=0), fl), m*0, spin=0), atol=tl)
@bounded(P, ["pixell.wavelets.HaarTransform.map2wave","pixell.wavelets.HaarTransform.wave2map"], "random maps up to 40x40, up to 4 levels, any reference point")
def haar(b):
    from pixell import enmap, wavelets as W, utils; R = b.nrng
    for it in range(b.N(40)):
        shape, wcs = enmap.geometry(pos=R.uniform(-.3,.3,2), res=utils.degree, shape=tuple(R.integers(1,41,2)), proj=R.choice(["car","cea"])); pre = [(),(2,),(2,1)][R.integers(0,3)]; nl = int(R.integers(0,5)); ref = None if R.random() < .4 else list(R.uniform(-.3,.3,2)); b.case(it, shape, pre, nl, ref); m = enmap.rand_gauss(pre+tuple(shape), wcs); m0 = m.copy(); H = W.HaarTransform(nl, ref=ref); w = H.map2wave(m); b.eq("argument kept", m, m0); b.check("levels", w.nmap == nl+1 and w.maps[nl].shape == m.shape); b.close("map back", H.wave2map(w), m, atol=1e-12)
        b.close("smooth part is the block mean", w.maps[0], _down(enmap, m, nl, ref), atol=1e-12)
        for i in range(1,nl+1):
            off = enmap.get_downgrade_offset(*w.geometries[i], 2, ref); b.close("details average to nothing", enmap.downgrade(w.maps[i], 2, off=off, inclusive=True), 0*enmap.downgrade(w.maps[i], 2, off=off, inclusive=True), atol=1e-12)
def _down(enmap, m, n, ref):
    for i in range(n): m = enmap.downgrade(m, 2, off=enmap.get_downgrade_offset(*m.geometry, 2, ref), inclusive=True)
    return m
@bounded(P, ["pixell.uharm.UHT.__init__","pixell.uharm.UHT.map2harm","pixell.uharm.UHT.harm2map","pixell.uharm.UHT.harm2map_adjoint","pixell.uharm.UHT.map2harm_adjoint","pixell.uharm.UHT.quad_weights","pixell.uharm.UHT.lprof2hprof","pixell.uharm.UHT.hprof2harm","pixell.uharm.UHT.hmul","pixell.uharm.UHT.harm2powspec","pixell.uharm.UHT.sum_hprof","pixell.uharm.UHT.mean_hprof","pixell.uharm.UHT.rprof2hprof","pixell.uharm.UHT.hprof2rprof","pixell.uharm.estimate_distortion"], "flat patches up to 50x50 and coarse full-sky maps, spin 0 and 2")
def harmonic(b):
    from pixell import enmap, uharm, utils, curvedsky; R = b.nrng
    for it in range(b.N(24)):
        flat = R.random() < .5; nc = int(R.choice([0,1,2,3])); spin = {0:0,1:0,2:int(R.choice([0,2])),3:[0,2] if R.random() < .6 else 0}[nc]; pre = (nc,) if nc else ()
        if flat: shape, wcs = enmap.geometry(pos=(0,0), res=R.uniform(1,20)*utils.arcmin, shape=tuple(R.integers(10,51,2)), proj="car")
        else: shape, wcs = enmap.fullsky_geometry(res=R.choice([5,6,10])*utils.degree)
        lm = int(R.integers(4,12)); u = uharm.UHT(shape, wcs, mode=R.choice(["auto","flat"]) if flat else R.choice(["auto","curved"]), lmax=lm); b.case(it, flat, nc, spin, shape); b.check("mode", u.mode == ("flat" if flat else "curved")); b.close("area", [u.area, u.fsky], [enmap.area(shape, wcs), enmap.area(shape, wcs)/4/np.pi]); dot = lambda x, y: np.sum(np.asarray(x)*np.asarray(y))
        if flat: m = enmap.rand_gauss(pre+tuple(shape), wcs); h = u.map2harm(m, spin=spin); b.eq("multipoles", u.l, enmap.modlmap(shape, wcs))
        else:
            ai = u.ainfo; h = R.normal(size=pre+(ai.nelem,))+1j*R.normal(size=pre+(ai.nelem,)); h[...,:lm+1] = h[...,:lm+1].real
            if nc >= 2 and spin != 0: h[-2:,np.isin(lmof(ai)[:,0],[0,1])] = 0
            m = u.harm2map(h, spin=spin); b.eq("multipoles", u.l, np.arange(lm+1))
        b.close("there and back", u.harm2map(u.map2harm(m, spin=spin), spin=spin), m, atol=1e-9*np.abs(m).max()); b.close("and the other way", u.map2harm(u.harm2map(h, spin=spin), spin=spin), h, atol=1e-9*np.abs(h).max()); h2 = u.map2harm(enmap.rand_gauss(m.shape, wcs), spin=spin)
        # <h, adj(m)> = <harm2map(h), m> in each mode's own inner product
        def hdot(x, y):
            if flat: return np.sum((np.conj(x)*y).real)
            w = np.where(lmof(u.ainfo)[:,1] == 0, 1, 2); return np.sum((np.conj(x)*y).real*w)
        x = enmap.rand_gauss(m.shape, wcs); b.close("adjoint of harm2map", hdot(h, u.harm2map_adjoint(x, spin=spin)), dot(u.harm2map(h, spin=spin), x), rtol=1e-8, atol=1e-7*np.abs(m).max()); b.close("adjoint of map2harm", hdot(u.map2harm(m, spin=spin), h2), dot(m, u.map2harm_adjoint(h2, spin=spin)), rtol=1e-8, atol=1e-9*np.abs(h).max()*np.abs(h2).max()*h.size)
        if not flat and 2*lm <= shape[-2]-2: b.close("quadrature", u.harm2map_adjoint(m*u.quad_weights(), spin=spin), u.map2harm(m, spin=spin), atol=1e-9*np.abs(h).max()); 
        nl = int(R.integers(3,20)) if not flat else int(np.max(u.l))+2; lp = R.uniform(.5,2,nl); hp = u.lprof2hprof(lp)
        if flat: b.close("profile at each multipole", hp, np.interp(u.l, np.arange(nl), lp), atol=1e-9)
        else: b.close("profile at each multipole", hp, np.concatenate([lp,np.zeros(max(0,lm+1-nl))])[:lm+1]); b.eq("layout", u.ainfo.get_map(), lmof(u.ainfo)); b.close("profile as alm", u.hprof2harm(hp), hp[lmof(u.ainfo)[:,0]])
        h0 = h.copy(); q = u.hmul(hp, h); b.eq("argument kept", h, h0); b.close("product", q, h*(hp if flat else hp[lmof(u.ainfo)[:,0]])); hh = h.copy(); r = u.hmul(hp, hh, inplace=True); b.close("product in place", hh, q)
        if nc >= 2: M = R.normal(size=(nc,nc)); HM = M[:,:,None,None]*hp if flat else M[:,:,None]*hp; b.close("matrix product", u.hmul(HM, h), np.einsum("ij,j...->i...", M, np.asarray(q)))
        b.close("sum", u.sum_hprof(hp), np.sum(np.asarray(hp)*u.nper)); b.close("mean", u.mean_hprof(hp*0+3.5), 3.5)
        if not nc:
            ps = u.harm2powspec(h); b.close("power", u.sum_hprof(ps)*u.fsky if flat else u.sum_hprof(ps), np.sum(np.abs(h)**2) if flat else np.sum(np.abs(h)**2*np.where(lmof(u.ainfo)[:,1] == 0, 1, 2)), rtol=1e-8)
        if it < 10:
            sig = (R.uniform(2,4)*abs(wcs.wcs.cdelt[1])*utils.degree) if flat else R.uniform(10,20)*utils.degree; rr = np.linspace(0,min(8*sig,np.pi),2000); br = np.exp(-.5*rr**2/sig**2); H = u.rprof2hprof(br, rr)
            if flat and min(shape) > 12*sig/(abs(wcs.wcs.cdelt[1])*utils.degree): b.close("Gaussian", H/(2*np.pi*sig**2), np.exp(-.5*(np.asarray(u.l)*sig)**2), atol=1e-2); b.close("profile back", u.hprof2rprof(H, rr[:100])[:50], br[:50], atol=.05)
            elif not flat: b.close("Gaussian", H[0], 2*np.pi*np.trapezoid(br*np.sin(rr), rr), rtol=1e-3)
