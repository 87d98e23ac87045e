"""C06: geometry constructors give the geometry they promise."""
import itertools
import numpy as np
from vp.core import *
from vp import geo, npshim, load as L
from vp.contracts.c04 import skydist
from vp.contracts.c05 import samepos, wk
P = "C06"

def world(w, y, x):
    """linear world coordinates (degrees) of a pixel: CAR/plain"""
    lx, ly = geo.inter(w, x, y); return ly+w.wcs.crval[1], lx+w.wcs.crval[0]
def near(c, a, b, tol=1e-7): return Eq(a, b) if c.symbolic else abs(a-b) <= tol*(1+abs(b))
def swcs(c, E):
    return stub(c, E.wcsutils, WCS=geo.blank)

for _var in ("cc","fejer1"):
    for _how in ("shape","res"):
        def _full(c, var=_var, how=_how):
            """full-sky rows and columns sit where the quadrature rule says, and cover the sky exactly once"""
            E = c.mod("enmap"); yo = 1 if var == "cc" else 0
            m, nx = c.int("m", lo=2-yo, sample=(2,30)), c.int("nx", lo=1, sample=(1,50)); ny = m+yo; i, j = c.int("i", sample=(0,30)), c.int("j", sample=(0,50))
            with swcs(c, E):
                if how == "shape": shp, w = E.fullsky_geometry(shape=(ny,nx), variant=var, dims=(3,))
                else: shp, w = E.fullsky_geometry(res=c.arr([c.pi/m, 2*c.pi/nx]), variant=var, dims=(3,))
            c.check("shape", And(len(shp) == 3, Eq(shp[0],3), Eq(shp[1],ny), Eq(shp[2],nx)))
            dec, ra = world(w, i, j)
            c.check("rows", near(c, dec, -90+(i*180/m if yo else (i+0.5)*180/m)))
            half = ite(Eq(nx%2, 0), 0.0, 0.5) if c.symbolic else (0.0 if nx%2 == 0 else 0.5)
            c.check("columns", near(c, ra, 180-(j+half)*360/nx))
            c.check("one turn", near(c, w.wcs.cdelt[0]*nx, -360))
            c.check("equator reference", And(Eq(w.wcs.crval[1], 0), list(w.wcs.ctype) == ["RA---CAR","DEC--CAR"]))
        contract(P, ["pixell.enmap.fullsky_geometry"], samples=200, trusted=[geo.CARLIN], name="fullsky_%s_%s" % (_var,_how))(_full)

# contract of pixelize_1d: pixel centres along an interval of length w centred on 0
for (_l, _lo), (_r, _ro) in itertools.product((("0",0),("h",0.5)), (("0",0),("h",-0.5))):
    for _per in (False, True):
        def _p1(c, lo=_lo, ro=_ro, per=_per):
            W = c.mod("wcsutils")
            w = c.real("w", sample=(1,400)); c.assume(w > 0.001)
            n = c.int("n", lo=2, sample=(2,40))
            r = W.pixelize_1d(w, n=n, offs=[lo,ro], periodic=per)
            m = n+1 if per and lo == ro else n         # pixels up to the right edge, the last one repeating the first
            res = w/(m-1+lo-ro)
            c.check("number of pixels", Eq(r[2], n))
            c.check("first pixel", near(c, r[0], -w/2+lo*res)); c.check("last pixel", near(c, r[1], -w/2+lo*res+(n-1)*res))
            c.check("offsets say where the edges are", And(near(c, r[0]-r[3]*res, -w/2), near(c, r[1]-r[4]*res, w/2)))
        contract(P, ["pixell.wcsutils.pixelize_1d"], scope="all lengths and pixel counts, offsets %s%s%s" % (_l,_r," periodic" if _per else ""), samples=100, name="pixelize_n_%s%s%s" % (_l,_r,"_per" if _per else ""))(_p1)
        def _p2(c, lo=_lo, ro=_ro, per=_per):
            W = c.mod("wcsutils")
            n = c.int("n", lo=2, sample=(2,40)); res = c.real("res", sample=(0.5,10)); c.assume(res > 0.001)
            sg = c.choose("sg", [1,-1])
            w = (n-1+lo-ro)*res
            if not c.symbolic: c.assume(n*1e-5 < 0.5)
            r = W.pixelize_1d(w, res=sg*res, offs=[lo,ro], periodic=per)
            drop = 1 if per and lo == ro else 0
            c.check("number of pixels", Eq(r[2], n-drop))
            c.check("first pixel", near(c, r[0], sg*(-w/2+lo*res))); c.check("last pixel", near(c, r[1], sg*(-w/2+lo*res+(n-1-drop)*res)))
            c.check("offsets say where the edges are", And(near(c, r[0]-sg*r[3]*res, -sg*w/2), near(c, r[1]-sg*r[4]*res, sg*w/2)))
        contract(P, ["pixell.wcsutils.pixelize_1d"], scope="all resolutions that divide the interval, offsets %s%s%s" % (_l,_r," periodic" if _per else ""), samples=100, name="pixelize_res_%s%s%s" % (_l,_r,"_per" if _per else ""))(_p2)

for _v, _offs in (("fejer1","00,hh"),("cc","00,00"),("safe","hh,hh")):
    def _g2(c, v=_v):
        """fullsky geometry2 from a shape: edges or centres at the poles and at the cut as the variant says"""
        W = c.mod("wcsutils")
        ny, nx = c.int("ny", lo=2, sample=(2,30)), c.int("nx", lo=2, sample=(2,50)); i, j = c.int("i", sample=(0,30)), c.int("j", sample=(0,50))
        with stub(c, W, WCS=geo.blank): shp, w = W.pixelization(W.projection("car"), shape=(ny,nx), variant=v)
        c.check("shape", And(Eq(shp[0],ny), Eq(shp[1],nx)))
        dec, ra = world(w, i, j)
        c.check("rows", near(c, dec, -90+((i*180/(ny-1)) if v == "cc" else (i+0.5)*180/ny)))
        c.check("columns", near(c, ra, -180+(j+(0.5 if v == "safe" else 0))*360/nx))
    contract(P, ["pixell.wcsutils.pixelization","pixell.wcsutils.projection","pixell.wcsutils.explicit","pixell.wcsutils.parse_variant","pixell.wcsutils.pixelize_1d"], samples=100, trusted=[geo.CARLIN], name="pixelization_"+_v)(_g2)

for _how in ("res","scalar_res"):
    def _thumb(c, how=_how):
        """thumbnail: odd shape, the exact centre of the coordinate system is pixel shape//2"""
        E = c.mod("enmap")
        ry, rx = c.real("ry", sample=(0.001,0.01)), c.real("rx", sample=(0.001,0.01)); c.assume(ry > 0.0001, rx > 0.0001)
        ny, nx = c.int("ny", lo=1), c.int("nx", lo=1)
        res = c.arr([ry,-rx]) if how == "res" else ry
        with swcs(c, E): shp, w = E.thumbnail_geometry(res=res, shape=c.arr([ny,nx]), dims=(2,), proj="car")
        c.check("odd shape", And(len(shp) == 3, Eq(shp[-2]%2,1), Eq(shp[-1]%2,1), shp[-2] >= ny, shp[-2] <= ny+1, shp[-1] >= nx, shp[-1] <= nx+1))
        dec, ra = world(w, shp[-2]//2, shp[-1]//2)
        c.check("centre", And(near(c, dec, 0), near(c, ra, 0)))
        c.check("resolution", And(near(c, w.wcs.cdelt[1]*c.pi/180, ry), near(c, w.wcs.cdelt[0]*c.pi/180, -rx if how == "res" else -ry)))
    contract(P, ["pixell.enmap.thumbnail_geometry","pixell.wcsutils.explicit","pixell.wcsutils.expand_res"], samples=100, trusted=[geo.CARLIN], name="thumbnail_"+_how)(_thumb)

for _how in ("r_res","r_shape"):
    def _thumb2(c, how=_how):
        E = c.mod("enmap")
        r = [c.real("r0", lo=0.01, hi=1.0), c.real("r1", lo=0.01, hi=1.0)]
        ry, rx = c.real("ry", lo=0.001, hi=0.2), c.real("rx", lo=0.001, hi=0.2)
        ny, nx = c.int("ny", lo=2), c.int("nx", lo=2)
        with swcs(c, E):
            if how == "r_res": shp, w = E.thumbnail_geometry(r=c.arr(r), res=c.arr([ry,rx]), proj="plain")
            else: shp, w = E.thumbnail_geometry(r=c.arr(r), shape=c.arr([ny,nx]), proj="plain")
        c.check("odd shape", And(len(shp) == 2, Eq(shp[-2]%2,1), Eq(shp[-1]%2,1)))
        dec, ra = world(w, shp[-2]//2, shp[-1]//2)
        c.check("centre", And(near(c, dec, 0), near(c, ra, 0)))
        if how == "r_shape":
            dec, ra = world(w, shp[-2]-1, shp[-1]-1)
            c.check("edge pixel centres at the radius", And(near(c, dec*c.pi/180, r[0]), near(c, ra*c.pi/180, r[1])))
        else:
            for k in range(2):
                h = (shp[k]-1)/2; rs = (ry,rx)[k]
                tol = 0 if c.symbolic else 1e-6
                c.check("radius to half a pixel", And(h*rs >= r[k]-rs*(0.5+tol), h*rs <= r[k]+rs*(0.5+tol)))
    contract(P, ["pixell.enmap.thumbnail_geometry"], scope="plain coordinates", samples=100, trusted=[geo.CARLIN], name="thumbnail_"+_how)(_thumb2)

# ---- the patch constructor
def box_inputs(c):
    b = [[c.real("d0", lo=-80, hi=80), c.real("a0", lo=-170, hi=170)], [c.real("d1", lo=-80, hi=80), c.real("a1", lo=-170, hi=170)]]
    c.assume(Or(b[1][0]-b[0][0] >= 1, b[0][0]-b[1][0] >= 1), Or(b[1][1]-b[0][1] >= 1, b[0][1]-b[1][1] >= 1), b[1][1]-b[0][1] <= 300, b[0][1]-b[1][1] <= 300)
    return b
for _sys in ("plain","car"):
    for _how in ("shape","res"):
        for _ref in (False, True):
            def _geo(c, sysm=_sys, how=_how, ref=_ref):
                E = c.mod("enmap")
                b = box_inputs(c); ny, nx = c.int("ny", lo=1, sample=(1,20)), c.int("nx", lo=1, sample=(1,20))
                ry, rx = c.real("ry", lo=0.1, hi=5), c.real("rx", lo=0.1, hi=5)
                pos = c.arr([[v*c.pi/180 for v in r] for r in b])
                kw = dict(shape=(ny,nx)) if how == "shape" else dict(res=c.arr([ry*c.pi/180, rx*c.pi/180]))
                if sysm == "plain" and ref: kw["ref"] = c.arr([0.0,0.0])
                with swcs(c, E): shp, w = E.geometry(pos, proj=sysm, force=not ref, pre=(2,), **kw)
                c.check("leading axes", len(shp) == 3)
                d0, a0 = world(w, -0.5, -0.5); d1, a1 = world(w, shp[-2]-0.5, shp[-1]-0.5)
                cd = [w.wcs.cdelt[1], w.wcs.cdelt[0]]; t = 1e-6 if not c.symbolic else 0
                for k, (lo_, hi_, n, r_) in enumerate(((d0,d1,shp[-2],ry),(a0,a1,shp[-1],rx))):
                    if k == 1 and not c.symbolic and sysm != "plain":          # a whole turn more or less is the same place
                        T = 360*round((b[0][1]-lo_)/360); lo_ += T; hi_ += T
                    up = b[1][k] > b[0][k]
                    c.check("direction", ite(up, 1, -1)*cd[k] > 0 if c.symbolic else (cd[k] > 0) == bool(up))
                    p = ite(cd[k] > 0, cd[k], -cd[k]) if c.symbolic else abs(cd[k])
                    slack = p/2 if ref else p*0
                    c.check("first corner", And(lo_-b[0][k] <= slack+t, lo_-b[0][k] >= -slack-t))
                    if how == "shape": c.check("far corner", And(hi_-b[1][k] <= slack+t, hi_-b[1][k] >= -slack-t))
                    else:
                        c.check("resolution", near(c, p, r_))
                        c.check("far corner to within a pixel", And(hi_-b[1][k] <= slack+p/2+t, hi_-b[1][k] >= -slack-p/2-t))
                if ref:
                    # the origin is at a whole pixel position
                    if c.symbolic: c.check("reference on a pixel centre", And(*[whole(sym.cast(((0-w.wcs.crval[k])/w.wcs.cdelt[k]+w.wcs.crpix[k]), float)) for k in range(2)]))
                    else: c.check("reference on a pixel centre", all(abs(v-round(v)) < 1e-6 for v in ((0-w.wcs.crval[k])/w.wcs.cdelt[k]+w.wcs.crpix[k] for k in range(2))))
            contract(P, ["pixell.enmap.geometry","pixell.wcsutils.build","pixell.wcsutils.validate","pixell.wcsutils.finalize","pixell.wcsutils."+_sys], scope="all boxes of 1..300 degrees, either direction, resolutions 0.1..5 degrees / any shape", samples=150, trusted=[geo.CARLIN, geo.PRINCIPAL],
                name="geometry_%s_%s%s" % (_sys,_how,"_ref" if _ref else ""), wall=200)(_geo)

# ---------------------------------------------------------------- bounded
@bounded(P, ["pixell.enmap.fullsky_geometry","pixell.enmap.band_geometry","pixell.enmap.geometry2","pixell.enmap.fullsky_geometry2","pixell.enmap.band_geometry2","pixell.enmap.thumbnail_geometry"], "random resolutions that divide the sky, all variants, all projections")
def fullsky_and_bands(b):
    from pixell import enmap, utils, wcsutils
    rng = b.rng; d = utils.degree
    for it in range(b.N(250)):
        var = rng.choice(["cc","fejer1"]); nyh = rng.randint(2,60); nx = rng.choice([2*nyh, rng.randint(2,90)]); yo = int(var == "cc"); ny = nyh+yo
        dims = rng.choice([(),(3,),(2,1)]); res = np.array([np.pi/nyh, 2*np.pi/nx])
        b.case("fullsky", var, ny, nx, dims)
        for kw in (dict(shape=(ny,nx)), dict(res=res)):
            s, w = enmap.fullsky_geometry(dims=dims, variant=var, **kw)
            b.check("shape", tuple(s) == dims+(ny,nx), s)
            dec, ra = enmap.posaxes(s, w)
            b.close("rows", dec, (-90+(np.arange(ny)+0.5*(1-yo))*180/nyh)*d)
            b.close("columns", (ra-(180-(np.arange(nx)+0.5*(nx%2))*360/nx)*d+np.pi)%(2*np.pi), np.full(nx,np.pi), atol=1e-8)
            b.check("longitudes within the sky", np.all(np.abs(np.array(w.wcs_pix2world(np.arange(nx),np.zeros(nx)+(ny-1)/2,0))[0]) <= 360.001) and np.max(ra)-np.min(ra) < 2*np.pi)
            if nx == 2*nyh or True:
                s2, w2 = enmap.geometry2(res=res*[1,-1], variant=var, pre=dims)
                b.check("geometry2 shape", tuple(s2) == dims+(ny,nx), (s2,ny,nx)); 
                if nx % 2 == 0: b.check("geometry2 equals fullsky_geometry", samepos(w2, [(0,0),(1,1)], w, [(0,0),(1,1)]), (str(w2),str(w)))
                s3, w3 = enmap.fullsky_geometry2(res=res*[1,-1], variant=var, dims=dims); b.check("fullsky_geometry2", tuple(s3) == tuple(s2) and np.allclose(wk(w3),wk(w2)))
        s4, w4 = enmap.fullsky_geometry2(shape=(ny,nx), variant=var, pre=dims); b.check("from shape", tuple(s4) == dims+(ny,nx), s4); b.close("covers one turn", abs(w4.wcs.cdelt[0])*nx, 360)
        dec4 = enmap.posaxes(s4, w4)[0]; b.close("rows from shape", dec4, dec)
        s5, w5 = enmap.geometry2(shape=(ny,nx), variant="safe"); dec5, ra5 = enmap.posaxes(s5, w5); b.check("safe shape", tuple(s5) == (ny,nx)); b.close("safe rows", dec5, (-90+(np.arange(ny)+0.5)*180/ny)*d)
        b.close("safe columns", (ra5/d*nx/360-0.5+0.25*0)%1*np.where(True,1,1), np.round((ra5/d*nx/360-0.5)%1), atol=1e-5) if nx % 2 == 0 else None
        # a degraded safe geometry is the safe geometry of the lower resolution
        f = rng.randint(2,3); s6, w6 = enmap.geometry2(shape=(f*ny,f*nx), variant="safe"); s7, w7 = enmap.downgrade_geometry(s6, w6, f)
        b.check("downgrade-safe", tuple(s7) == (ny,nx) and samepos(w7, [(0,0),(ny-1,nx-1)], w5, [(0,0),(ny-1,nx-1)]), (str(w7),str(w5)))
        # bands
        lo, hi = sorted([rng.uniform(-89,90), rng.uniform(-89,90)])
        if hi-lo > 2*180/nyh:
            cut = rng.choice([[lo*d,hi*d],[lo*d,np.pi/2]])
            b.case("band", var, ny, nx, cut)
            s, w = enmap.fullsky_geometry(shape=(ny,nx), variant=var, dims=dims); bs, bw = enmap.band_geometry(cut, shape=(ny,nx), variant=var, dims=dims)
            dec = enmap.posaxes(s, w)[0]; rows = enmap.posaxes(bs, bw)[0]; h = np.pi/nyh
            b.check("band is made of full-sky rows", np.all(np.min(np.abs(dec[:,None]-rows),0) < 1e-7) and bs[-1] == nx and bs[:-2] == dims)
            b.check("band range", np.all((rows > cut[0]-h*0.5001)&(rows < cut[1]+h*0.5001)) and np.all(np.min(np.abs(rows-dec[(dec > cut[0]+h*0.5001)&(dec < cut[1]-h*0.5001)][:,None]),1) < 1e-7 if np.any((dec > cut[0]+h*0.5001)&(dec < cut[1]-h*0.5001)) else True))
            b.check("band columns", samepos(bw, [(0,0),(0,nx-1)], w, [(np.argmin(np.abs(dec-rows[0])),0),(np.argmin(np.abs(dec-rows[0])),nx-1)]))
            c2 = rng.uniform(5,80)*d
            if c2 > 2*h:
                a1, a2 = enmap.band_geometry(c2, shape=(ny,nx), variant=var), enmap.band_geometry([-c2,c2], shape=(ny,nx), variant=var); b.check("single cut is symmetric", tuple(a1[0]) == tuple(a2[0]) and np.allclose(wk(a1[1]),wk(a2[1])))
        if nx % 2 == 0 and nyh >= 6:
            k1, k2 = sorted(rng.sample(range(0,nyh+1),2))
            b.case("band2", var, ny, nx, k1, k2)
            e = (-90+np.array([k1,k2])*180/nyh)
            s, w = enmap.band_geometry2(e, res=res/d*[1,-1], deg=True, variant="fejer1", pre=dims)
            c2 = k2*180/nyh*0.25 if k2 else 90.0; kk = rng.randint(1, nyh//2); x1 = enmap.band_geometry2(kk*180/nyh, res=res/d*[1,-1], deg=True, variant="fejer1"); x2 = enmap.band_geometry2(np.array([-kk,kk])*180/nyh*d, res=res*[1,-1], variant="fejer1")
            b.check("single cut of band2 is symmetric, in degrees or radians", tuple(x1[0]) == tuple(x2[0]) and np.allclose(wk(x1[1]), wk(x2[1])), (x1, x2))
            b.check("band2 shape", tuple(s) == dims+(k2-k1,nx), (s,k1,k2)); b.close("band2 rows", enmap.posaxes(s,w)[0], (-90+(np.arange(k1,k2)+0.5)*180/nyh)*d)

@bounded(P, ["pixell.enmap.geometry","pixell.enmap.geometry2","pixell.enmap.thumbnail_geometry","pixell.wcsutils.build","pixell.wcsutils._apply_zenithal_ref"], "random boxes and points, 9 projections, with and without reference")
def patches(b):
    from pixell import enmap, utils, wcsutils
    rng = b.rng; d = utils.degree
    # recorded finding: force=True is not honoured by zenithal projections
    bx = np.array([[23,152],[29,142]])*d; s, w = enmap.geometry(bx, shape=(12,16), proj="tan", force=True); e = enmap.sky2pix(s, w, bx.T)
    b.case("force=True, tan"); b.finding("F1", np.all(np.abs(e-[[-0.5,11.5],[-0.5,15.5]]) < 1e-2), e)
    for it in range(b.N(400)):
        proj = rng.choice(["car","cea","mer","arc","sin","zea","tan","gnom","plain"]); cyl = proj in ("car","cea","mer")
        dec, ra = rng.uniform(-50,50), rng.uniform(-180,180); hy, hx = rng.uniform(1,10), rng.uniform(1,10)
        if rng.random() < 0.5: dec, ra, hy, hx = [float(round(v)) for v in (dec,ra,hy,hx)]
        sy, sx = rng.choice([1,-1]), rng.choice([1,-1]); box = np.array([[dec-sy*hy,ra-sx*hx],[dec+sy*hy,ra+sx*hx]])*d
        pre = rng.choice([(),(3,)]); dg = rng.choice([False,True]); u = 1/d if dg else 1
        res = rng.choice([0.25,0.5,rng.uniform(0.2,0.9)])*d; shape = (rng.randint(2,20), rng.randint(2,20)); ref = rng.choice([None,"force"]+([(0.1,0.2)] if proj == "car" else []))
        force = ref == "force"; exact = force and proj in ("car","cea","mer","plain"); kw = dict(proj=proj, deg=dg, pre=pre, force=force)
        if isinstance(ref, tuple): kw["ref"] = tuple(np.array(ref)*u)
        b.case("geometry", proj, box.tolist(), res, shape, ref)
        s, w = enmap.geometry(box*u, shape=shape, **kw)
        b.check("shape kept", tuple(s) == pre+shape, s)
        pix = enmap.sky2pix(s, w, box.T)                      # pixel position of the requested corners
        want = np.array([[-0.5,shape[0]-0.5],[-0.5,shape[1]-0.5]])
        b.check("corners", np.all(np.abs(pix-want) < (1e-4 if exact else 0.5001)), (pix, want))
        s, w = enmap.geometry(box*u, res=res*u, **kw)
        pix = enmap.sky2pix(s, w, box.T); want = np.array([[-0.5,s[-2]-0.5],[-0.5,s[-1]-0.5]])
        b.check("first corner", np.all(np.abs(pix[:,0]-want[:,0]) < (1e-4 if exact else 0.5001)), (pix, want))
        b.check("far corner within a pixel", np.all(np.abs(pix[:,1]-want[:,1]) < (0.5001 if exact else 1.0001)), (pix, want))
        b.close("resolution", np.abs(w.wcs.cdelt), [res/d]*2); b.check("direction", np.all(np.sign(w.wcs.cdelt) == [sx,sy])); b.check("leading axes", s[:-2] == pre)
        if not force and cyl:
            rp = w.wcs_world2pix([[ref[1]/d,ref[0]/d]] if isinstance(ref,tuple) else [[0,0]],0)[0]; b.check("reference at a whole pixel", np.all(np.abs(rp-np.round(rp)) < 1e-6), rp)
        # around a point
        s, w = enmap.geometry(box.mean(0)*u, res=res*u, shape=shape, **kw)
        pix = enmap.sky2pix(s, w, box.mean(0)); b.check("centre", tuple(s) == pre+shape and np.all(np.abs(pix-(np.array(shape)-1)/2) < (1e-4 if exact else 0.5001)), (pix, shape))
        if not cyl and proj != "plain":
            c0 = w.wcs.crval; st = 0.05; x0, y0 = w.wcs_world2pix(c0[0], c0[1], 0); xn, yn = w.wcs_world2pix(c0[0], c0[1]+st, 0); xe, ye = w.wcs_world2pix(c0[0]+st, c0[1], 0)
            b.check("north is along y at the reference point", (yn-y0)*w.wcs.cdelt[1] > 0 and abs(xn-x0) < 1e-3*abs(yn-y0), (xn-x0,yn-y0)); b.check("east is along x at the reference point", (xe-x0)*w.wcs.cdelt[0] > 0 and abs(ye-y0) < 1e-2*abs(xe-x0), (xe-x0,ye-y0))
        # geometry2
        if proj in ("car","cea","mer"):
            n = rng.randint(60,400); r2 = np.array([2*np.pi/(2*n)]*2)
            b.case("geometry2", proj, box.tolist(), r2.tolist())
            s, w = enmap.geometry2(box*u, res=r2*u*[sy,sx], proj=proj, deg=dg, pre=pre)
            pix = enmap.sky2pix(s, w, box.T); want = np.array([[-0.5,s[-2]-0.5],[-0.5,s[-1]-0.5]])
            b.check("geometry2 corners within a pixel", np.all(np.abs(pix-want) < 1.01) and s[:-2] == pre, (pix, want))
            fs, fw = enmap.geometry2(res=r2*[sy,sx], proj=proj); p = enmap.sky2pix(fs, fw, enmap.pix2sky(s, w, [[0,s[-2]-1],[0,s[-1]-1]]))
            b.check("cropped from the full sky", np.all(np.abs(p-np.round(p)) < 1e-4), p)
            b.close("scalar resolution", wk(enmap.geometry2(box*u, res=r2[0]*u, proj=proj, deg=dg)[1]), wk(w))
            s, w = enmap.geometry2(box.mean(0)*u, res=r2[0]*u, shape=shape, proj=proj, deg=dg); pix = enmap.sky2pix(s, w, box.mean(0))
            b.check("geometry2 around a point", tuple(s) == shape and np.all(np.abs(pix-np.array(shape)//2) < 0.5001), (pix, s))
        # thumbnails
        tp = rng.choice(["tan","car","zea","plain","sin","arc"]); r = rng.uniform(0.5,5)*d; ts = rng.uniform(0.1,0.4)*d
        b.case("thumbnail", tp, r, ts, shape)
        for k2 in (dict(r=r,res=ts), dict(res=ts,shape=shape), dict(r=r,shape=shape)):
            s, w = enmap.thumbnail_geometry(proj=tp, dims=pre, **k2)
            b.check("odd", s[-2]%2 == 1 and s[-1]%2 == 1 and s[:-2] == pre); b.close("centre pixel", enmap.sky2pix(s, w, [0,0]), np.array(s[-2:])//2, atol=1e-7)
            if "res" in k2: b.close("thumbnail resolution", w.wcs.cdelt*d, [ts if tp == "plain" else -ts, ts], rtol=1e-7)
            if "r" in k2:
                e = np.abs(enmap.sky2pix(s, w, [r,r])-np.array(s[-2:])//2)      # the corner (r,r) is where the size is measured
                b.check("radius", np.all(np.abs(e-np.array(s[-2:])//2) < (0.5001 if "res" in k2 else 1e-4)), (e, s))
            if "shape" in k2: b.check("thumbnail shape", tuple(s[-2:]) == tuple(n//2*2+1 for n in shape))
