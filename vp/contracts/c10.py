"""C10: spherical harmonic transforms evaluate the harmonics at each pixel's true sky position."""
import itertools
import numpy as np
from vp.core import *
from vp import geo, npshim, sym
from vp.contracts.c07 import near
P = "C10"
DUCC = "ducc0: synthesis_general evaluates the spin harmonics at the given positions"

# ---- recognition of the ring grids
@contract(P, ["pixell.utils.nint"], scope="all numbers", samples=200)
def nearest(c):
    U = c.mod("utils"); v = c.real("v", sample=(-9,9)); r = U.nint(v); r = r[()] if hasattr(r, "shape") and not issym(r) else r
    c.check("within one half", And(r-v <= 0.5, v-r <= 0.5))
@contract(P, ["pixell.utils.hasoff"], scope="all numbers, offsets and tolerances below one half", samples=200)
def offset_from_whole(c):
    U = c.mod("utils"); o = c.real("o", sample=(-2,2)); e = c.real("e", lo=-0.5, hi=0.5, sample=(-.5,.5)); t = c.real("tol", lo=0, hi=0.5, sample=(0.001,0.4)); k = c.int("k", sample=(-9,9))
    c.assume(t > 0, t < 0.5); v = o+k+e        # any number: k is the whole number nearest to it
    r = U.hasoff(v, o, tol=t)
    near = And(e < t, e > -t)
    c.check("iff within the tolerance of the nearest whole number plus the offset", Or(And(r, near), And(Not(r), Not(near))))
class Scale:
    """a pixel scale of 360/n (or 90/n) degrees with a sign"""
    def __init__(self, sign, turn, n): self.sign, self.turn, self.n = sign, turn, n
    def __gt__(self, o): assert o == 0; return self.sign > 0
    def __lt__(self, o): assert o == 0; return self.sign < 0
    def __abs__(self): return Scale(1, self.turn, self.n)
    def __rtruediv__(self, a): return self.sign*self.n*(a/self.turn)
class PoleWCS:
    """a CAR geometry in terms of the rows of the poles (wcslib's linear contract solved for them)"""
    def __init__(self, c, sx, sy, nx, y1, q, canon):
        class W: pass
        self.wcs = W(); self.wcs.cdelt = [Scale(sx,360,nx), Scale(sy,90,q)]; self.c, self.y1, self.q, self.canon = c, y1, q, canon
    def wcs_pix2world(self, x, y, o): return [self.c.real("ra0"), None]
    def wcs_world2pix(self, ra, dec, o):
        if not self.canon: raise Unsupported("not reordered")
        return [None, {90: self.y1, -90: self.y1+2*self.q}[dec]]

@contract(P, ["pixell.curvedsky.get_ducc_geo","pixell.curvedsky.get_ducc_maxlmax","pixell.utils.hasoff"], scope="all CAR geometries with a whole number of columns around the sky, all map heights and rows", samples=400, trusted=[geo.CARLIN], wall=300)
def ring_grid(c):
    """a recognised map's rows are rings of the ducc grid that is named, at the offset that is given (tolerance 1e-6 of a row)"""
    C = c.mod("curvedsky"); nx = c.int("nx", lo=1, sample=(1,20)); ny = c.int("ny", lo=1, sample=(1,12)); j = c.int("j", lo=0, sample=(0,11)); c.assume(j < ny)
    sx, sy = c.choose("sx",[1,-1]), c.choose("sy",[1,-1])
    # row of the north pole, counted from the northern end, and rows between the poles: nearest whole numbers and remainders
    n1 = c.int("n1", sample=(-4,4)); n2 = c.int("n2", lo=1, sample=(1,20)); f1 = c.real("f1", lo=-0.5, hi=0.5, sample=(-.6,.6)); f2 = c.real("f2", lo=-0.5, hi=0.5, sample=(-.6,.6))
    if not c.symbolic: f1, f2 = round(f1*2)/2, round(f2*2)/2
    y1, q = n1+f1, (n2+f2)/2
    def part(v):                                # whole-number part of a linear expression in n1 and n2
        if not hasattr(v, "e"): return 0
        if not any(u.eq(x.e) for u in sym.z3.z3util.get_vars(v.e) for x in (n1,n2)): return 0
        at = lambda a, b: sym.z3.simplify(sym.z3.substitute(v.e, (n1.e, sym.z3.IntVal(a)), (n2.e, sym.z3.IntVal(b)), (f1.e, sym.z3.RealVal(0)), (f2.e, sym.z3.RealVal(0)))).as_fraction()
        return int(at(1,0)-at(0,0))*n1 + int(at(0,1)-at(0,0))*n2
    cp0 = c.real("crpix0", sample=(-20,20)); cp1 = y1+q+1         # north first, ra increasing
    if c.symbolic: w = PoleWCS(c, sx, sy, nx, y1, q, False)
    else: w = geo.real_wcs("car", [cp0 if sx > 0 else nx+1-cp0, cp1 if sy < 0 else ny+1-cp1], [sx*360/nx, sy*90/q], [0.0, 0.0])
    def sliced(shape, wcs, sel):                # contract of slice_geometry (C01) for whole-axis slices
        c.check("reordered north first, ra increasing", And(sel[0].step == -sy, sel[1].step == sx))
        return shape, PoleWCS(c, 1, -1, nx, y1, q, True)
    def nint(v):                                # contract of utils.nint (checked below)
        if isinstance(v, SInt): return v
        r = part(v)+c.int("nint%d" % len(c.inputs)); c.assume(r-v <= 0.5, v-r <= 0.5); return r
    def hasoff(v, off, tol=1e-6):               # contract of utils.hasoff (checked above)
        if isinstance(v, SInt) and off == 0: return True
        k = part(v)+c.int("whole%d" % len(c.inputs)); c.assume(v-off-k <= 0.5, v-off-k >= -0.5); return And(v-off-k < tol, v-off-k > -tol)
    with stub(c, C.enmap, slice_geometry=sliced), stub(c, C.utils, nint=nint, hasoff=hasoff): g = C.get_ducc_geo(w, shape=(ny,nx))
    if g is None: c.check("not a ring grid", True); return
    n = g.ny; k = j+g.yoff; tol = 4e-6
    c.check("columns", Eq(g.nx, nx))
    o = {"CC":(0,0),"F1":(0.5,0.5),"MW":(0.5,0),"MWflip":(0,0.5),"DH":(0,1),"F2":(1,1)}[g.name]
    c.check("row is ducc's ring", And((j-y1)-(o[0]+k) <= tol, (j-y1)-(o[0]+k) >= -tol))
    want = o[0]+(n-1)+o[1]; c.check("number of rings", And(2*q-want <= tol, 2*q-want >= -tol))
    lm = {"CC":n-2,"F1":n-1,"MW":n-1,"MWflip":n-1}.get(g.name); c.check("largest l", Eq(g.lmax, lm) if lm is not None else (2*g.lmax+2 <= n if g.name == "DH" else 2*g.lmax+1 <= n))

def geoms(b, n):
    """(description, shape, wcs): full skies, bands and patches of the ring grids, flipped or not, plus non-cylindrical ones"""
    from pixell import enmap, utils, wcsutils
    rng = b.rng
    for i in range(n):
        kind = rng.choice(["cc","fejer1","mw","odd","tan","cea","band","patch","patch","dh","f2"])
        if kind in ("cc","fejer1","band","patch","dh","f2"):
            var = "cc" if kind in ("cc","dh","f2") else "fejer1" if kind == "fejer1" else rng.choice(["cc","fejer1"])
            ny = rng.randint(6,14); nx = rng.choice([2*ny, 2*ny+rng.randint(1,5)])
            s, w = enmap.fullsky_geometry(shape=(ny+(var=="cc"),nx), variant=var)
            if kind == "dh": s, w = enmap.slice_geometry(s, w, (slice(1,None),slice(None)))
            if kind == "f2": s, w = enmap.slice_geometry(s, w, (slice(1,-1),slice(None)))
            if kind in ("band","patch"):
                y1, y2 = sorted(rng.sample(range(s[0]+1),2)); y2 = max(y2,y1+1)
                x1, x2 = (0,s[1]) if kind == "band" else sorted(rng.sample(range(s[1]+1),2))
                s, w = enmap.slice_geometry(s, w, (slice(y1,y2),slice(x1,x2)))
        elif kind == "mw":
            ny = rng.randint(5,11); nx = 2*ny; dy = 180/(ny-0.5)
            w = wcsutils.explicit(crval=[0,0], cdelt=[-360/nx,dy], crpix=[nx//2+0.5,0], ctype=["RA---CAR","DEC--CAR"])
            pole = rng.choice([0.0,0.5]); w.wcs.crpix[1] = 1-pole+90/dy if True else 0; s = (ny,nx)
            if pole: w.wcs.crpix[1] = 1-0.5+90/dy
        elif kind == "odd":
            nx = rng.randint(10,20); ny = rng.randint(3,10); dy = rng.uniform(5,150/ny)
            w = wcsutils.explicit(crval=[rng.uniform(-180,180),0], cdelt=[-360/nx,dy], crpix=[rng.uniform(0,nx),(ny+1)/2+rng.uniform(-1,1)], ctype=["RA---CAR","DEC--CAR"]); s = (ny,nx)
        elif kind == "tan":
            s, w = (rng.randint(2,6), rng.randint(2,6)), wcsutils.explicit(crval=[rng.uniform(-170,170),rng.uniform(-60,60)], cdelt=[-8,7.0], crpix=[2.3,3.1], ctype=["RA---TAN","DEC--TAN"])
        else:
            nx = rng.randint(8,16); ny = rng.randint(3,8); s = (ny,nx)
            w = wcsutils.explicit(crval=[0,0], cdelt=[-360/nx,100/ny], crpix=[nx/2+0.5,(ny+1)/2+rng.uniform(-.5,.5)], ctype=["RA---CEA","DEC--CEA"])
        if rng.random() < 0.6: s, w = enmap.slice_geometry(s, w, (slice(None,None,rng.choice([1,-1])),slice(None,None,rng.choice([1,-1]))))
        yield kind, tuple(s), w

def positions(s, w):
    """dec, ra of every pixel straight from wcslib"""
    yy, xx = np.mgrid[:s[-2],:s[-1]]
    ra, dec = w.wcs_pix2world(xx.ravel(), yy.ravel(), 0)
    # wcslib refuses the far half of a cylinder: the geometry is linear there
    bad = ~np.isfinite(ra)
    if np.any(bad) and "CAR" in w.wcs.ctype[0]:
        ra = w.wcs.crval[0]+w.wcs.cdelt[0]*(xx.ravel()+1-w.wcs.crpix[0]); dec = w.wcs.cdelt[1]*(yy.ravel()+1-w.wcs.crpix[1])
    if w.wcs.ctype[0].endswith("CAR") and w.wcs.crval[1] == 0:
        ra = w.wcs.crval[0]+w.wcs.cdelt[0]*(xx.ravel()+1-w.wcs.crpix[0]); dec = w.wcs.cdelt[1]*(yy.ravel()+1-w.wcs.crpix[1])
    return np.array([dec, ra])*np.pi/180
def truth(alm, ainfo, pos, spin, deriv=False):
    """harmonics at positions; spin is a list covering the component axis (scalar for 1-d alm)"""
    import ducc0
    from pixell import curvedsky
    tri = curvedsky.alm_info(ainfo.lmax, ainfo.mmax); a = np.zeros(alm.shape[:-1]+(tri.nelem,), complex)
    for m in range(ainfo.mmax+1):
        for l in range(m, ainfo.lmax+1): a[...,tri.lm2ind(l,m)] = alm[...,ainfo.lm2ind(l,m)]
    loc = np.array([np.clip(np.pi/2-pos[0],0,np.pi), pos[1]%(2*np.pi)]).T.copy()
    kw = dict(loc=loc, lmax=ainfo.lmax, mmax=ainfo.mmax, epsilon=1e-12)
    def syn(x, s):
        x = np.ascontiguousarray(x)
        if s: return ducc0.sht.experimental.synthesis_general(alm=x, spin=s, **kw)
        return ducc0.sht.experimental.synthesis_general(alm=x, spin=0, **kw)
    if deriv:
        r = ducc0.sht.experimental.synthesis_general(alm=a.reshape(1,-1), spin=1, mode="DERIV1", **kw); r[0] *= -1; return r
    a2 = a.reshape((-1,)+a.shape[-1:]) if a.ndim < 3 else a
    if a.ndim <= 2:
        out = []; i = 0; sp = list(spin) if np.ndim(spin) else [spin]*len(a2); k = 0
        while i < len(a2):
            s = sp[k % len(sp)]; n = 2 if s else 1; out.append(syn(a2[i:i+n], s)); i += n; k += 1
        r = np.concatenate(out,0); return r.reshape(a.shape[:-1]+(-1,))
    return np.array([truth_one for truth_one in [truth(x, tri, pos, spin) for x in a]])
def ralm(b, pre, ai, dt=np.complex128):
    a = b.nrng.standard_normal(pre+(ai.nelem,))+1j*b.nrng.standard_normal(pre+(ai.nelem,))
    for l in range(ai.lmax+1): a[...,ai.lm2ind(l,0)] = a[...,ai.lm2ind(l,0)].real
    return a.astype(dt)
def spinok(a, ai, spin):
    """zero the modes l<s a spin field does not have"""
    i = 0
    a = a.copy(); n = a.shape[-2] if a.ndim > 1 else 1; sp = list(spin); k = 0
    while i < n:
        s = sp[k]; m = 2 if s else 1
        for l in range(min(abs(s),ai.lmax+1)):
            for mm in range(0,min(l,ai.mmax)+1):
                if a.ndim > 1: a[...,i:i+m,ai.lm2ind(l,mm)] = 0
        i += m; k += 1
    return a
def dotalm(ai, a, c):
    """the real inner product of two real fields' coefficients"""
    t = 0
    for m in range(ai.mmax+1):
        for l in range(m, ai.lmax+1): i = ai.lm2ind(l,m); t = t+np.sum((a[...,i]*np.conj(c[...,i])).real)*(1 if m == 0 else 2)
    return t

@bounded(P, ["pixell.curvedsky.alm2map","pixell.curvedsky.alm2map_2d","pixell.curvedsky.alm2map_cyl","pixell.curvedsky.alm2map_general","pixell.curvedsky.alm2map_raw_2d","pixell.curvedsky.alm2map_raw_cyl","pixell.curvedsky.alm2map_raw_general","pixell.curvedsky.analyse_geometry","pixell.curvedsky.get_ducc_geo","pixell.curvedsky.get_ring_info","pixell.curvedsky.map2buffer","pixell.curvedsky.buffer2map","pixell.curvedsky.calc_locinfo","pixell.curvedsky.alm2map_pos","pixell.curvedsky.alm2map_adjoint"], "random full skies, bands, patches and other projections up to 14 rows, lmax up to 6, spins, derivatives, layouts; against ducc0 at wcslib positions")
def synthesis(b):
    from pixell import curvedsky, enmap, wcsutils
    rng = b.rng
    for kind, s, w in geoms(b, b.N(120)):
        lmax = rng.randint(2,6); mmax = rng.choice([lmax,lmax,rng.randint(0,lmax)]); ai = curvedsky.alm_info(lmax, mmax, layout=rng.choice(["tri","rect"]))
        pre, spin = rng.choice([((),[0]),((3,),[0,2]),((2,),[0]),((2,),[1]),((2,3),[0,2]),((2,),[2])])
        spin_arg = spin if pre else rng.choice([0,[0],[0,2]]); dt = rng.choice([np.float64,np.float64,np.float32])
        A = ralm(b, pre, ai, np.complex128 if dt == np.float64 else np.complex64); sp = spin if len(pre) and spin != [0] else [0]*(pre[-1] if pre else 1)
        b.case(kind, s, str(w), lmax, mmax, ai.nelem, pre, spin_arg, dt.__name__); A0 = A.copy()
        pos = positions(s, w); pos = pos if "TAN" not in w.wcs.ctype[0] else pos
        T = truth(A, ai, pos, sp).reshape(pre+s)
        m = enmap.zeros(pre+s, w, dt)+7; ok = dict(rtol=1e-4,atol=1e-4) if dt == np.float32 else dict(rtol=1e-6,atol=1e-6)
        meths = ["auto","general"]+(["cyl"] if "TAN" not in w.wcs.ctype[0] else [])+(["2d"] if kind in ("cc","fejer1","band","patch","dh","f2") else [])
        for meth in meths:
            o = m.copy(); r = curvedsky.alm2map(A, o, spin=spin_arg if pre else spin_arg, ainfo=ai, method=meth, **({"epsilon":1e-9} if dt == np.float64 else {}))
            b.close("harmonics at the pixel positions (%s)" % meth, np.asarray(r), T, **ok); b.check("same map returned", r is o); b.check("geometry", wcsutils.equal(r.wcs, w) and r.shape == pre+s)
        mc = m.copy(); r = curvedsky.alm2map(A, mc, spin=spin_arg, ainfo=ai, copy=True); b.eq("copy leaves the map alone", mc, m); b.close("copy", r, T, **(dict(rtol=1e-3,atol=1e-3)))
        b.eq("coefficients unchanged", A, A0)
        if lmax == mmax and ai.nelem == (lmax+1)*(lmax+2)//2: b.close("default layout", curvedsky.alm2map(A, m.copy(), spin=spin_arg), T, rtol=1e-4, atol=1e-4)
        # positions instead of a map
        if len(pre) < 2:
            r = curvedsky.alm2map_pos(A if pre else A[None], pos.reshape((2,)+s), ainfo=ai, spin=spin_arg if pre else 0); b.close("arbitrary positions", r.reshape(pre+s), T, **ok)
        # derivatives
        if dt == np.float64:
            D = truth(A.reshape(-1,ai.nelem)[0], ai, pos, 0, deriv=True).reshape((2,)+s)
            for meth in ("auto","general"):
                r = curvedsky.alm2map(A.reshape(-1,ai.nelem)[0], enmap.zeros((2,)+s, w), deriv=True, ainfo=ai, method=meth, epsilon=1e-9)
                if np.max(np.abs(pos[0])) < np.pi/2-1e-3: b.close("derivatives along dec and ra (%s)" % meth, r, D, rtol=1e-5, atol=1e-5)
            # adjoint: <Y a, m> = <a, Y^T m>
            M = enmap.enmap(b.nrng.standard_normal(pre+s), w); M0 = M.copy(); Az = spinok(A, ai, sp)
            for meth in meths:
                At = curvedsky.alm2map_adjoint(M, np.zeros(pre+(ai.nelem,),complex), spin=spin_arg, ainfo=ai, method=meth, epsilon=1e-10)
                b.close("adjoint (%s)" % meth, dotalm(ai, Az, At), np.sum(M*T), rtol=1e-6, atol=1e-6); b.eq("map unchanged", M, M0)
            Md = enmap.enmap(b.nrng.standard_normal((2,)+s), w); Md0 = Md.copy()
            if np.max(np.abs(pos[0])) < np.pi/2-1e-3:
                for meth in ("auto","general"):
                    At = curvedsky.alm2map_adjoint(Md, np.zeros(ai.nelem,complex), deriv=True, ainfo=ai, method=meth, epsilon=1e-10); b.close("adjoint of the derivatives (%s)" % meth, dotalm(ai, A.reshape(-1,ai.nelem)[0], At), np.sum(Md*D), rtol=1e-5, atol=1e-5); b.eq("map unchanged", Md, Md0)

@bounded(P, ["pixell.curvedsky.map2alm","pixell.curvedsky.map2alm_2d","pixell.curvedsky.map2alm_cyl","pixell.curvedsky.map2alm_general","pixell.curvedsky.map2alm_raw_2d","pixell.curvedsky.map2alm_raw_cyl","pixell.curvedsky.map2alm_raw_general","pixell.curvedsky.map2alm_adjoint","pixell.curvedsky.quad_weights","pixell.curvedsky.jacobi_inverse","pixell.curvedsky.filter"], "random full skies, bands and patches up to 14 rows, lmax up to 6")
def analysis(b):
    from pixell import curvedsky, enmap, wcsutils, utils
    rng = b.rng
    for kind, s, w in geoms(b, b.N(140)):
        lmax = rng.randint(2,5); pre, spin = rng.choice([((),[0]),((3,),[0,2]),((2,),[0]),((2,2),[1])]); sp = spin if spin != [0] else [0]*(pre[-1] if pre else 1)
        ai = curvedsky.alm_info(lmax, layout=rng.choice(["tri","rect"])); b.case(kind, s, str(w), lmax, ai.nelem, pre, spin)
        pos = positions(s, w); A = spinok(ralm(b, pre, ai), ai, sp); m = enmap.enmap(truth(A, ai, pos, sp).reshape(pre+s), w); m0 = m.copy()
        sel = np.array([ai.lm2ind(l,mm) for mm in range(lmax+1) for l in range(mm,lmax+1)])
        g = curvedsky.analyse_geometry(s, w); MW = g.ducc_geo is not None and g.ducc_geo.name in ("MW","MWflip")
        full = g.case == "2d" or (kind in ("cc","fejer1","mw") and s[-1] > 2*lmax)
        if g.case == "2d" and min(g.ducc_geo.lmax,10**9) >= lmax and s[-1] > 2*lmax:
            for meth in ("auto","2d")+(("cyl",) if not MW and 2*lmax <= s[0]-2 and (g.ducc_geo.name != "DH" or s[0] % 2 == 0) else ()):
                R = curvedsky.map2alm(m, ainfo=ai, spin=spin, method=meth); b.close("analysis recovers the coefficients of a full-sky map (%s)" % meth, R[...,sel], A[...,sel], rtol=1e-6, atol=1e-6)
            O = np.zeros(pre+(ai.nelem,),complex); R = curvedsky.map2alm(m, O, ainfo=ai, spin=spin); b.check("given array returned", R is O or np.shares_memory(R,O)); b.close("given array", O[...,sel], A[...,sel], rtol=1e-6,atol=1e-6)
            if ai.nelem == (lmax+1)*(lmax+2)//2: b.close("lmax", curvedsky.map2alm(m, lmax=lmax, spin=spin), A, rtol=1e-6, atol=1e-6)
        # quadrature: analysis is the adjoint of synthesis applied to the map times the weights
        if g.case != "general":
            M = enmap.enmap(b.nrng.standard_normal(pre+s), w); M0 = M.copy()
            if g.ducc_geo is not None and not MW:
                W = curvedsky.quad_weights(s, w); th = np.pi/2-pos[0].reshape(s)[:,0]
                b.check("one weight per row", W.shape == (s[0],))
                fs = {k: v for k, v in zip(np.round(full_theta(g),9), full_weights(g))}
                want = np.array([fs.get(round(t,9), np.nan) for t in th]); b.close("weight of the row's own latitude", W, want/g.ducc_geo.nx, rtol=1e-7)
            else: W = enmap.pixsizemap(s, w)[:,0]
            R = curvedsky.map2alm(M, ainfo=ai, spin=spin, method="cyl"); Yt = curvedsky.alm2map_adjoint(M*np.asarray(W)[:,None], np.zeros(pre+(ai.nelem,),complex), ainfo=ai, spin=spin, method="cyl")
            b.close("analysis weighs each row by its quadrature weight", R[...,sel], Yt[...,sel], rtol=1e-8, atol=1e-8); b.eq("map unchanged", M, M0)
            Wu = b.nrng.uniform(0.5,2,s[0]); R = curvedsky.map2alm(M, ainfo=ai, spin=spin, method="cyl", weights=Wu); Yt = curvedsky.alm2map_adjoint(M*Wu[:,None], np.zeros(pre+(ai.nelem,),complex), ainfo=ai, spin=spin, method="cyl")
            b.close("given weights are in map order", R[...,sel], Yt[...,sel], rtol=1e-8, atol=1e-8)
            for ni in (1,2) if g.case != "partial" else ():
                R1 = curvedsky.map2alm(M, ainfo=ai, spin=spin, method="cyl", niter=ni); x = curvedsky.map2alm(M, ainfo=ai, spin=spin, method="cyl")
                for k in range(ni): x = x-curvedsky.map2alm(curvedsky.alm2map(x, M*0, ainfo=ai, spin=spin, method="cyl")-M, ainfo=ai, spin=spin, method="cyl")
                b.close("Jacobi steps", R1[...,sel], x[...,sel], rtol=1e-7, atol=1e-7)
        else: M = enmap.enmap(b.nrng.standard_normal(pre+s), w)
        if np.all(np.isfinite(pos)):
            G = curvedsky.map2alm(M, ainfo=ai, spin=spin, method="general", epsilon=1e-11); Yt = curvedsky.alm2map_adjoint(M*M.pixsizemap(), np.zeros(pre+(ai.nelem,),complex), ainfo=ai, spin=spin, method="general", epsilon=1e-11)
            b.close("general analysis weighs each pixel by its area", G[...,sel], Yt[...,sel], rtol=1e-7, atol=1e-7)
        # adjoint
        for meth in ["auto"]+(["cyl"] if g.case != "general" else []):
            B_ = spinok(ralm(b, pre, ai), ai, sp); R = curvedsky.map2alm(M, ainfo=ai, spin=spin, method=meth); Mt = curvedsky.map2alm_adjoint(B_, enmap.zeros(pre+s, w), ainfo=ai, spin=spin, method=meth)
            if g.case == "2d" and meth == "auto" and (g.ducc_geo.lmax < lmax or s[-1] <= 2*lmax): continue
            b.close("adjoint of the analysis (%s)" % meth, np.sum(Mt*M), dotalm(ai, B_, R), rtol=1e-6, atol=1e-6)
        if g.case == "2d" and g.ducc_geo.lmax >= lmax and s[-1] > 2*lmax and spin == [0]:
            fl = b.nrng.standard_normal(lmax+1); At = A.copy()
            for l in range(lmax+1):
                for mm in range(l+1): At[...,ai.lm2ind(l,mm)] *= fl[l]
            b.close("filter", curvedsky.filter(m, fl, ainfo=ai), truth(At, ai, pos, sp).reshape(pre+s), rtol=1e-6, atol=1e-6)
def full_theta(g):
    n = g.ducc_geo.ny; k = np.arange(n); nm = g.ducc_geo.name
    return {"CC":lambda: np.pi*k/(n-1), "F1":lambda: np.pi*(k+0.5)/n, "MW":lambda: np.pi*(2*k+1)/(2*n-1), "MWflip":lambda: np.pi*2*k/(2*n-1), "DH":lambda: np.pi*k/n, "F2":lambda: np.pi*(k+1)/(n+1)}[nm]()
def full_weights(g):
    import ducc0
    return ducc0.sht.experimental.get_gridweights(g.ducc_geo.name, g.ducc_geo.ny)
