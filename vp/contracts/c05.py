"""C05: operations that change a map's geometry keep data and geometry in step."""
import itertools
import numpy as np
from vp.core import *
from vp import geo, npshim, smap, load as L
from vp.contracts.c01 import rand_wcs, PROJ
from vp.contracts.c04 import small_geo, skydist
P = "C05"

def kw_unchanged(c, w, keep):
    return And(*[Eq(getattr(w.wcs, k)[i], keep[k][i]) for k in ("crpix","cdelt","crval") for i in range(2)])
def keep(w): return {k: [getattr(w.wcs,k)[0]+0, getattr(w.wcs,k)[1]+0] for k in ("crpix","cdelt","crval")}

# ---------------------------------------------------------------- geometry arithmetic, all geometries
@contract(P, ["pixell.wcsutils.scale","pixell.enmap.scale_geometry","pixell.enmap.upgrade_geometry"], samples=200, trusted=[geo.WCSLIB])
def scale_keeps_the_footprint(c):
    """pixel edges: edge k*s of the scaled geometry lies where edge k was"""
    E = c.mod("enmap"); Wm = E.wcsutils
    w = geo.wcs(c, projs=("plain","car")); old = keep(w)
    s = [c.real("sy", lo=0.1, hi=8, sample=(0.25,4)), c.real("sx", lo=0.1, hi=8, sample=(0.25,4))]
    y, x = c.real("y"), c.real("x")
    o = Wm.scale(w, c.arr(s), rowmajor=True)
    # edge coordinate e (in pixels, edge e=0 before the first pixel) is pixel position e-0.5
    a, b = geo.inter(w, x-0.5, y-0.5), geo.inter(o, x*s[1]-0.5, y*s[0]-0.5)
    tol = 0 if c.symbolic else 1e-8*(1+abs(a[0])+abs(a[1]))
    near = (lambda p, q: Eq(p,q)) if c.symbolic else (lambda p, q: abs(p-q) <= tol)
    c.check("edges stay", And(near(a[0],b[0]), near(a[1],b[1]), geo.same_frame(w, o)))
    o = Wm.scale(w, c.arr(s), rowmajor=True, corner=False)
    a, b = geo.inter(w, x, y), geo.inter(o, x*s[1], y*s[0])     # the centre of the first pixel stays
    c.check("without corner", And(near(a[0],b[0]), near(a[1],b[1])))
    o = Wm.scale(w, c.arr(s[::-1]))
    a, b = geo.inter(w, x-0.5, y-0.5), geo.inter(o, x*s[1]-0.5, y*s[0]-0.5)
    c.check("column-major factors", And(near(a[0],b[0]), near(a[1],b[1])))
    c.check("argument unchanged", kw_unchanged(c, w, old))
    ny, nx = c.int("ny", lo=1), c.int("nx", lo=1)
    shp, o = E.scale_geometry((3,c.int("ny"),c.int("nx")) if False else (3,ny,nx), w, c.arr(s))
    c.check("shape", And(len(shp) == 3, Eq(shp[0],3), shp[1] >= ny*s[0]-0.5, shp[1] <= ny*s[0]+0.5, shp[2] >= nx*s[1]-0.5, shp[2] <= nx*s[1]+0.5))
    a, b = geo.inter(w, x-0.5, y-0.5), geo.inter(o, x*s[1]-0.5, y*s[0]-0.5)
    c.check("geometry edges stay", And(near(a[0],b[0]), near(a[1],b[1])))

def same(c, w1, p1, w2, p2): return geo.same_sky(c, w1, p1, w2, p2)

@contract(P, ["pixell.enmap.downgrade_geometry","pixell.wcsutils.scale"], samples=200, trusted=[geo.WCSLIB])
def downgrade_geometry_blocks(c):
    """pixel (i,j) of the result is centred on the block of fy x fx pixels starting at (i fy, j fx); whole blocks only"""
    E = c.mod("enmap")
    w = geo.wcs(c, projs=("plain","car")); old = keep(w)
    fy, fx = c.int("fy", lo=1, sample=(1,5)), c.int("fx", lo=1, sample=(1,5))
    ny, nx = c.int("ny", lo=1, sample=(1,20)), c.int("nx", lo=1, sample=(1,20))
    i, j = c.int("i"), c.int("j")
    shp, o = E.downgrade_geometry((2,ny,nx), w, c.arr([fy,fx]))
    c.check("leading axes", len(shp) == 3)
    c.check("whole blocks", And(Eq(shp[0],2), shp[1]*fy <= ny, shp[1]*fy > ny-fy, shp[2]*fx <= nx, shp[2]*fx > nx-fx))
    c.check("block centres", same(c, o, (i,j), w, (i*fy+(fy-1)/2, j*fx+(fx-1)/2)))
    c.check("argument unchanged", kw_unchanged(c, w, old))

for _k in (0,1,2):
    def _crop(c, k=_k):
        """a pixel box: pixel p of the result is pixel p+start of the source"""
        E = c.mod("enmap")
        w = geo.wcs(c, projs=("plain","car")); old = keep(w)
        ny, nx = c.int("ny", lo=1), c.int("nx", lo=1)
        y0, x0 = c.int("y0"), c.int("x0"); h, v = c.int("h", lo=1), c.int("v", lo=1); i, j = c.int("i"), c.int("j")
        pre = (2,)*k
        shp, o = E.crop_geometry(pre+(ny,nx), w, pixbox=c.arr([[y0,x0],[y0+h,x0+v]]))
        c.check("shape", And(len(shp) == k+2, Eq(shp[-2],h), Eq(shp[-1],v)))
        c.check("position", same(c, o, (i,j), w, (i+y0,j+x0)))
        shp, o = E.crop_geometry(pre+(ny,nx), w, pixbox=c.arr([y0,x0]), oshape=(h,v))
        c.check("shape around a point", And(len(shp) == k+2, Eq(shp[-2],h), Eq(shp[-1],v)))
        c.check("the point is the middle pixel", same(c, o, (h//2,v//2), w, (y0,x0)))
        c.check("argument unchanged", kw_unchanged(c, w, old))
    contract(P, ["pixell.enmap.crop_geometry"], samples=80, trusted=[geo.WCSLIB], name="crop_geometry_%d" % _k)(_crop)

@contract(P, ["pixell.wcsutils.recenter_cyl_x","pixell.wcsutils.recenter_cyl_ra","pixell.enmap.recenter_cyl","pixell.enmap.recenter_geo"], samples=200, trusted=[geo.CARLIN])
def recentering_moves_nothing(c):
    """longitude and declination of every pixel stay; only the reference pixel moves"""
    E = c.mod("enmap"); W = E.wcsutils
    crpix = [c.real("crpix0"), c.real("crpix1")]; cd = [c.real("cdelt0", ne=0), c.real("cdelt1", ne=0)]; cv = [c.real("crval0"), 0.0]
    w = geo.SWCS(crpix, cd, cv) if c.symbolic else geo.real_wcs("car", crpix, cd, cv)
    if not c.symbolic: c.assume(abs(cd[0]) > 0.05)
    old = keep(w); x = c.real("x"); px, py = c.real("px"), c.real("py")
    ny, nx = c.int("ny", lo=1), c.int("nx", lo=1); ra = c.real("ra")
    lin = lambda w, px, py: [geo.inter(w, px, py)[i]+w.wcs.crval[i] for i in range(2)]
    near = (lambda p, q: Eq(p,q)) if c.symbolic else (lambda p, q: abs(p-q) < 1e-7*(1+abs(p)))
    a = lin(w, px, py)
    for o, cp in ((W.recenter_cyl_x(w, x), x), (E.recenter_cyl((ny,nx), w)[1], (nx+1)/2), (E.recenter_geo((ny,nx), w)[1], (nx+1)/2), (E.recenter_geo((ny,nx), w, mode=True)[1], (nx+1)/2), (W.recenter_cyl_ra(w, ra), None), (E.recenter_geo((ny,nx), w, mode=False)[1], old["crpix"][0])):
        b = lin(o, px, py)
        c.check("positions stay", And(near(a[0],b[0]), near(a[1],b[1])))
        if cp is not None: c.check("reference pixel", near(o.wcs.crpix[0], cp))
        else: c.check("reference longitude", near(o.wcs.crval[0], ra))
        c.check("pixel size stays", And(Eq(o.wcs.cdelt[0], cd[0]), Eq(o.wcs.cdelt[1], cd[1])))
    c.check("argument unchanged", kw_unchanged(c, w, old))

@contract(P, ["pixell.wcsutils.fix_wcs"], samples=200, trusted=[geo.CARLIN])
def fix_wcs_moves_nothing(c):
    E = c.mod("enmap"); W = E.wcsutils
    crpix = [c.real("crpix0", sample=(-50,400)), c.real("crpix1")]; cd = [c.real("cdelt0", ne=0), c.real("cdelt1", ne=0)]; cv = [c.real("crval0", sample=(-200,200)), 0.0]
    if not c.symbolic: c.assume(abs(cd[0]) > 0.05)
    w = geo.SWCS(crpix, cd, cv) if c.symbolic else geo.real_wcs("car", crpix, cd, cv)
    old = keep(w); px, py = c.real("px"), c.real("py")
    o = W.fix_wcs(w)
    near = (lambda p, q: Eq(p,q)) if c.symbolic else (lambda p, q: abs(p-q) < 1e-7*(1+abs(p)))
    lin = lambda w: [geo.inter(w, px, py)[i]+w.wcs.crval[i] for i in range(2)]
    a, b = lin(w), lin(o)
    c.check("positions stay", And(near(a[0],b[0]), near(a[1],b[1])))
    c.check("argument unchanged", kw_unchanged(c, w, old))

# ---------------------------------------------------------------- maps of any size
def arrmap(c, E, shape, w, name="m"):
    """a map of arbitrary (symbolic) shape; concrete: random values"""
    if c.symbolic:
        m = smap.SMap(smap.symbase(name, shape), wcs=w); return m
    rs = np.random.RandomState(int(abs(float(w.wcs.crpix[0]))*1e3) % (2**31))
    return E.ndmap(rs.standard_normal(tuple(int(s) for s in shape)), w)
def V(c, m, *I):
    if c.symbolic: return m.val(*I)
    if any(i < 0 or i >= n for i, n in zip(I, m.shape)): return None
    return m[tuple(int(i) for i in I)] if not hasattr(m, "wcs") else np.asarray(m)[tuple(int(i) for i in I)]

def full_stub(c):
    def full(shape, wcs, val, dtype=None):
        v = sym.zr(val)
        return smap.SMap(smap.Base(tuple(shape), lambda *I: v), wcs=wcs)
    return full
def sm_ndmap(): 
    def ndmap(arr, wcs):
        r = smap.SMap(arr.base, arr.shape, arr.idx, wcs); return r
    return ndmap

for _form, _wrap in itertools.product(("scalar","pair","full"), (False,True)):
    def _pad(c, form=_form, wrap=_wrap):
        E = c.mod("enmap")
        w = geo.wcs(c, projs=("plain",)); old = keep(w)
        ny, nx = c.int("ny", lo=1, sample=(1,7)), c.int("nx", lo=1, sample=(1,7))
        p = [c.int("p%d" % i, lo=0, sample=(0,5)) for i in range(4)]
        if form == "scalar": arg, p = c.arr(p[0]) if False else p[0], [p[0]]*4
        elif form == "pair": arg, p = c.arr(p[:2]), [p[0],p[1],p[0],p[1]]
        else: arg = c.arr([[p[0],p[1]],[p[2],p[3]]])
        if wrap: c.assume(p[0] <= ny, p[2] <= ny, p[1] <= nx, p[3] <= nx)
        val = c.real("value")
        m = arrmap(c, E, (ny,nx), w)
        i, j = c.int("i", lo=0, sample=(0,16)), c.int("j", lo=0, sample=(0,16)); c.assume(i < ny+p[0]+p[2], j < nx+p[1]+p[3])
        with stub(c, E, full=full_stub(c)): r, sl = E.pad(m, arg, return_slice=True, wrap=wrap, value=val)
        c.check("shape", And(len(r.shape) == 2, Eq(r.shape[0], ny+p[0]+p[2]), Eq(r.shape[1], nx+p[1]+p[3])))
        c.check("positions", same(c, r.wcs, (i,j), w, (i-p[0], j-p[1])))
        a, b = i-p[0], j-p[1]
        inside = And(a >= 0, a < ny, b >= 0, b < nx)
        got = V(c, r, i, j)
        if c.symbolic:
            if wrap:
                aw, bw = ite(a < 0, a+ny, ite(a >= ny, a-ny, a)), ite(b < 0, b+nx, ite(b >= nx, b-nx, b))
                c.check("value", Eq(got, m.val(aw, bw)))
            else: c.check("value", Eq(got, ite(inside, m.val(a,b), SReal(sym.zr(val)))))
        else: c.check("value", got == (np.asarray(m)[a%ny,b%nx] if wrap else (np.asarray(m)[a,b] if inside else val)))
        c.check("source geometry unchanged", kw_unchanged(c, w, old))
        s0, s1 = (L.v_slice_indices if c.symbolic else (lambda s, n: s.indices(n)))(sl[-2], r.shape[0]), (L.v_slice_indices if c.symbolic else (lambda s, n: s.indices(n)))(sl[-1], r.shape[1])
        c.check("slice of the original", And(Eq(s0[0],p[0]), Eq(s0[1],p[0]+ny), Eq(s1[0],p[1]), Eq(s1[1],p[1]+nx)))
    contract(P, ["pixell.enmap.pad"], samples=200, trusted=[geo.WCSLIB, smap.NUMPY_VIEWS], name="pad_%s%s" % (_form, "_wrap" if _wrap else ""))(_pad)

# ---------------------------------------------------------------- blocks: small concrete sizes, arbitrary values
for _n, _b, _off in [(n,b,o) for n in (1,2,4,5,7) for b in (2,3) for o in range(b)]:
    def _blk(c, n=_n, bs=_b, off=_off):
        if n < off: return c.check("nothing to do", True)
        U = c.mod("utils")
        a = [c.real("a%d" % i) for i in range(n)]
        edges = ([0] if off else []) + list(range(off, n, bs)) + [n]
        blocks = [(x,y) for x, y in zip(edges[:-1],edges[1:])]
        mean = lambda A, axis: U.np.sum(A, axis)/A.shape[axis]
        near = (lambda p, q: Eq(p,q)) if c.symbolic else (lambda p, q: abs(p-q) < 1e-9)
        r = U.block_reduce(c.arr(a), bs, off=off, op=mean, inclusive=True)
        c.check("number of blocks", r.shape[0] == len(blocks))
        c.check_all("block means", [near(r[k]*(y-x), sum(a[x:y])) for k, (x,y) in enumerate(blocks)])
        whole_ = [(x,y) for x,y in blocks if y-x == bs and x >= off]
        if whole_:
            r2 = U.block_reduce(c.arr(a), bs, off=off, op=mean, inclusive=False)
            c.check("whole blocks only", r2.shape[0] == len(whole_)); c.check_all("their means", [near(r2[k]*bs, sum(a[x:y])) for k, (x,y) in enumerate(whole_)])
            e2 = U.block_expand(r2, bs, n, off=off, inclusive=False)
            c.check("expanded length", e2.shape[0] == n)
            c.check_all("expanded whole blocks", [near(e2[i], r2[k]) for k, (x,y) in enumerate(whole_) for i in range(x,y)])
            c.check_all("zero elsewhere", [near(e2[i], 0) for i in range(n) if not any(x <= i < y for x,y in whole_)])
        e = U.block_expand(r, bs, n, off=off)
        c.check("expanded to the original length", e.shape[0] == n)
        c.check_all("expanded values", [near(e[i], r[k]) for k, (x,y) in enumerate(blocks) for i in range(x,y)])
    contract(P, ["pixell.utils.block_reduce","pixell.utils.block_expand"], scope="all values, %d elements, blocks of %d, offset %d" % (_n,_b,_off), samples=3, name="blocks_%d_%d_%d" % (_n,_b,_off))(_blk)

# ---------------------------------------------------------------- bounded
def geo_of(rng): return small_geo(rng)
def where(w, pts):
    r = np.array(w.wcs_pix2world(np.asarray(pts,float)[:,::-1], 0)); return r
def samepos(w1, p1, w2, p2):
    a, b = where(w1,p1), where(w2,p2); ok = np.all(np.isfinite(a),1)&np.all(np.isfinite(b),1); d = a-b
    if str(w1.wcs.ctype[0]): d[:,0] = (d[:,0]+180)%360-180; d[:,0] *= np.cos(np.minimum(np.abs(a[:,1]),90)*np.pi/180)
    return bool(np.all(np.abs(d[ok]) < 1e-6))
def wk(w): return np.concatenate([w.wcs.crpix, w.wcs.cdelt, w.wcs.crval])

@bounded(P, ["pixell.enmap.downgrade","pixell.enmap.upgrade","pixell.enmap.get_downgrade_offset","pixell.enmap.ndmap.downgrade","pixell.enmap.ndmap.upgrade","pixell.enmap.Geometry.downgrade","pixell.enmap.Geometry.scale"], "random maps up to 12 pixels a side, factors 1..4, all offsets, several projections")
def down_and_up(b):
    from pixell import enmap, utils
    rng = b.rng
    for it in range(b.N(400)):
        proj, _, w = small_geo(rng); f = (rng.randint(1,4), rng.randint(1,4)); off = (rng.randrange(f[0]), rng.randrange(f[1]))
        shape = (rng.randint(off[0]+f[0],12), rng.randint(off[1]+f[1],12)); pre = rng.choice([(),(2,),(1,3)])
        inc = rng.choice([False,True]); op = rng.choice([np.mean,np.sum,np.max])
        m = enmap.ndmap(b.nrng.standard_normal(pre+shape), w); m0 = np.array(m); w0 = wk(w)
        farg = f[0] if f[0] == f[1] and rng.random() < 0.5 else f
        b.case("downgrade", proj, shape, pre, f, off, inc, op.__name__, str(w))
        how = rng.choice(["off","ref","none","method"])
        if how == "off": r = enmap.downgrade(m, farg, op=op, off=off, inclusive=inc)
        elif how == "method": r = m.downgrade(farg, op=op, off=off); inc = False
        elif how == "none": off = (0,0); r = enmap.downgrade(m, farg, op=op, inclusive=inc)
        else:
            ref = enmap.pix2sky(shape, w, [off[0]+f[0]*rng.randint(0,1), off[1]+f[1]*rng.randint(0,1)]); r = enmap.downgrade(m, farg, op=op, ref=ref, inclusive=inc)
        def edges(n, f, o):
            if f == 1: return [(i,i+1) for i in range(n)]
            e = [(k,min(k+f,n)) for k in range(o,n,f)]
            if inc and o: e = [(0,o)]+e
            if not inc: e = [(x,y) for x,y in e if y-x == f]
            return e
        off = tuple(0 if q == 1 else o for q, o in zip(f,off))
        ey, ex = [edges(n,q,o) for n,q,o in zip(shape,f,off)]
        want = np.array([[op(op(m0[...,y0:y1,:],-2)[...,x0:x1],-1) for x0,x1 in ex] for y0,y1 in ey])
        want = np.moveaxis(want,(0,1),(-2,-1))
        b.check("shape", r.shape == want.shape, (r.shape, want.shape))
        b.close("block values", np.asarray(r), want)
        if f != (1,1):
            # full blocks: pixel centre is the block centre
            ys = [(i,(y0+y1-1)/2) for i,(y0,y1) in enumerate(ey) if y1-y0 == f[0]]; xs = [(j,(x0+x1-1)/2) for j,(x0,x1) in enumerate(ex) if x1-x0 == f[1]]
            p1 = [(i,j) for i,_ in ys for j,_ in xs]; p2 = [(y,x) for _,y in ys for _,x in xs]
            b.check("block centres", samepos(r.wcs, p1, w, p2), (str(r.wcs), str(w)))
        b.eq("map unchanged", np.asarray(m), m0); b.eq("geometry unchanged", wk(w), w0)
        if off == (0,0) and not inc:
            gs, gw = enmap.downgrade_geometry(m.shape, m.wcs, farg)
            b.check("downgrade_geometry agrees", tuple(gs) == r.shape and np.allclose(wk(gw), wk(r.wcs)), (gs, r.shape))
            g = enmap.Geometry(*m.geometry).downgrade(farg); b.check("Geometry.downgrade agrees", tuple(g.shape) == r.shape and np.allclose(wk(g.wcs), wk(r.wcs)))
        # upgrade inverts the geometry and repeats the pixels
        b.case("upgrade", proj, shape, pre, f, off, inc, str(w))
        how = rng.choice(["plain","oshape"])
        if how == "plain":
            u = rng.choice([enmap.upgrade, lambda m, f: m.upgrade(f)])(m, farg); o = (0,0)
            b.eq("repeated", np.asarray(u), np.repeat(np.repeat(m0,f[0],-2),f[1],-1))
            b.eq("upgrade then downgrade", np.round(np.asarray(enmap.downgrade(u, farg)),9), np.round(m0,9))
            pts = [(i,j) for i in range(shape[0]) for j in range(shape[1])]
            b.check("centres", samepos(w, pts, u.wcs, [((i+0.5)*f[0]-0.5,(j+0.5)*f[1]-0.5) for i,j in pts]))
        else:
            u = enmap.upgrade(r, farg, off=off, oshape=shape, inclusive=inc)
            b.check("original shape", u.shape == pre+shape, (u.shape, shape))
            ww = np.zeros(pre+shape)
            for i,(y0,y1) in enumerate(ey):
                for j,(x0,x1) in enumerate(ex): ww[...,y0:y1,x0:x1] = np.asarray(r)[...,i,j][...,None,None]
            b.eq("block values put back", np.asarray(u), ww)
            b.close("original geometry", wk(u.wcs), w0, atol=1e-6)
        b.eq("geometry unchanged by upgrade", wk(w), w0)
        # geometry objects
        g = enmap.Geometry(pre+shape, w); g2 = enmap.Geometry(g); b.check("copy construction", g2.shape == g.shape and np.allclose(wk(g2.wcs), w0))
        s = rng.choice([0.5,2,3,(1.5,2)]); gs = g.scale(s); es = enmap.scale_geometry(pre+shape, w, s); ss = np.zeros(2)+s
        b.check("Geometry.scale", gs.shape == tuple(es[0]) and np.allclose(wk(gs.wcs), wk(es[1]))); b.check("scaled shape", np.all(np.abs(np.array(gs.shape[-2:])-np.array(shape)*ss) <= 0.5) and gs.shape[:-2] == pre)
        b.check("scaled edges", samepos(w, [(-0.5,-0.5),(1,2)], gs.wcs, [(-0.5,-0.5),(1.5*ss[0]-0.5,2.5*ss[1]-0.5)]))
        b.eq("npix", g.npix, shape[0]*shape[1]); b.check("nopre", g.nopre.shape == shape and g.with_pre((5,)).shape == (5,)+shape)
        cp = g.copy(); cp.wcs.wcs.crpix += 1; b.eq("copies are independent", wk(w), w0)

@bounded(P, ["pixell.enmap.pad","pixell.enmap.shift","pixell.enmap.fractional_shift","pixell.enmap.fftshift","pixell.enmap.ifftshift","pixell.enmap.autocrop","pixell.enmap.padcrop","pixell.enmap.find_blank_edges","pixell.enmap.apod"], "random maps up to 12 pixels a side with 0..2 leading axes")
def pad_shift_crop(b):
    from pixell import enmap, utils, fft
    rng = b.rng
    for it in range(b.N(400)):
        proj, _, w = small_geo(rng); pre = rng.choice([(),(2,),(1,3)]); shape = (rng.randint(1,12), rng.randint(1,12))
        m = enmap.ndmap(b.nrng.standard_normal(pre+shape), w); m0 = np.array(m); w0 = wk(w)
        form = rng.choice([0,1,2]); wrap = rng.choice([False,True]); hi = [min(5,n) for n in shape]
        if form == 0: p = rng.randint(0,min(hi)); P4 = [[p,p],[p,p]]
        elif form == 1: p = [rng.randint(0,hi[0]), rng.randint(0,hi[1])]; P4 = [p,p]
        else: p = [[rng.randint(0,hi[0]), rng.randint(0,hi[1])] for _ in range(2)]; P4 = p
        val = rng.choice([0,1.5,np.nan])
        b.case("pad", shape, pre, p, wrap, val)
        r, sl = enmap.pad(m, p, return_slice=True, wrap=wrap, value=val); r1 = enmap.pad(m, p, wrap=wrap, value=val)
        width = [(0,0)]*len(pre)+[(P4[0][0],P4[1][0]),(P4[0][1],P4[1][1])]
        want = np.pad(m0, width, mode="wrap") if wrap else np.pad(m0, width, constant_values=val)
        b.eq("padded values", np.asarray(r), want); b.eq("without slice", np.asarray(r1), want)
        b.eq("slice gives the original", np.asarray(r[sl]), m0); b.close("and its geometry", wk(r[sl].wcs), w0)
        b.close("padded geometry", wk(r.wcs), w0+np.array([P4[0][1],P4[0][0],0,0,0,0]))
        # cyclic shifts
        off = [rng.randint(-9,9), rng.randint(-9,9)]; kw = rng.choice([False,True])
        b.case("shift", shape, pre, off, kw)
        s = enmap.shift(m, off, keepwcs=kw); b.eq("rolled", np.asarray(s), np.roll(m0, off, (-2,-1)))
        b.close("shifted geometry", wk(s.wcs), w0+(0 if kw else np.array([off[1],off[0],0,0,0,0])))
        mi = m.copy(); s2 = enmap.shift(mi, off, inplace=True, keepwcs=kw); b.eq("in place", np.asarray(mi), np.roll(m0, off, (-2,-1))); b.close("in place geometry", wk(mi.wcs), wk(s.wcs))
        s3 = enmap.fractional_shift(m, np.array(off), keepwcs=kw); b.close("whole fractional shift", np.asarray(s3), np.roll(m0, off, (-2,-1)), atol=1e-6); b.close("its geometry", wk(s3.wcs), wk(s.wcs))
        b.eq("fftshift", np.asarray(enmap.fftshift(m)), np.fft.fftshift(m0, axes=(-2,-1))); b.eq("ifftshift", np.asarray(enmap.ifftshift(m)), np.fft.ifftshift(m0, axes=(-2,-1)))
        b.eq("map unchanged", np.asarray(m), m0); b.eq("geometry unchanged", wk(w), w0)
        # blank edges and auto-cropping
        val = rng.choice([0.0,np.nan,7.0]); bl = np.array([[rng.randint(0,3),rng.randint(0,3)],[rng.randint(0,3),rng.randint(0,3)]])
        big = np.full(tuple(pre)+tuple(np.array(shape)+bl.sum(0)), val); big[...,bl[0,0]:bl[0,0]+shape[0],bl[0,1]:bl[0,1]+shape[1]] = m0
        M = enmap.ndmap(big, w.deepcopy()); W0 = wk(M.wcs)
        b.case("autocrop", shape, pre, val, bl.tolist())
        b.eq("blank edges", enmap.find_blank_edges(M, val), bl); b.eq("no blanks", enmap.find_blank_edges(M, "none"), np.zeros((2,2),int))
        method = rng.choice(["plain","fft"]); facs = rng.choice([None,[2],[2,3],[5]]) if method == "fft" else None; margin = rng.choice([0,0,1,2])
        r, info = enmap.autocrop(M, method=method, value=val, factors=facs, margin=margin, return_info=True)
        ms = np.array(shape)+margin
        want = ms if method == "plain" else np.array([min(k for k in range(int(n),400) if smooth(k, facs or [2,3,5,7,11,13])) for n in ms])
        b.eq("cropped shape", np.array(r.shape[-2:]), want)
        # every pixel of the result sits where its value was, and all non-blank pixels survive
        d = np.round(wk(r.wcs)-W0,6); o = (int(d[1]), int(d[0])); b.check("whole-pixel move", np.allclose(d[:2], np.round(d[:2])) and np.allclose(d[2:],0))
        filled = enmap.pad(M, [[30,30],[30,30]]); exp = np.asarray(filled)[...,30-o[0]:30-o[0]+want[0],30-o[1]:30-o[1]+want[1]]
        b.eq("cropped values", np.asarray(r), exp)
        b.check("content kept", bl[0,0]+o[0] >= 0 and bl[0,1]+o[1] >= 0 and bl[0,0]+shape[0]+o[0] <= want[0] and bl[0,1]+shape[1]+o[1] <= want[1], (o, want))
        other = enmap.ndmap(b.nrng.standard_normal(big.shape), w.deepcopy()); q = enmap.padcrop(other, info)
        b.check("padcrop same shape", q.shape == r.shape and np.allclose(wk(q.wcs), wk(r.wcs)))
        # apodization: full weight inside, untouched geometry, zero at the outermost edge
        ww = [rng.randint(0,shape[0]//2), rng.randint(0,shape[1]//2)]; profile = rng.choice(["cos","lin"]); fill = rng.choice(["zero","mean","median"])
        b.case("apod", shape, pre, ww, profile, fill)
        def prof(n, k):
            r = np.ones(n)
            for q in range(k):
                x = (q+1)/(k+1); v = x if profile == "lin" else 0.5*(1-np.cos(np.pi*x)); r[q] = v; r[n-1-q] = v
            return r
        o = {"zero": np.zeros(pre+(1,1)), "mean": np.mean(m0,(-2,-1),keepdims=True), "median": np.median(m0,(-2,-1),keepdims=True)}[fill]
        a = enmap.apod(m, ww, profile=profile, fill=fill); b.close("apodized", np.asarray(a), (m0-o)*prof(shape[0],ww[0])[:,None]*prof(shape[1],ww[1])+o)
        b.eq("apod leaves its argument", np.asarray(m), m0); b.eq("apod keeps the geometry", wk(a.wcs), w0)

def smooth(k, facs):
    k0 = k
    for f in facs:
        while k % f == 0: k //= f
    return k == 1 and k0 > 1

@bounded(P, ["pixell.enmap.union_geometry","pixell.enmap.crop_geometry","pixell.enmap.recenter_geo","pixell.wcsutils.fix_wcs","pixell.wcsutils.fix_cdelt"], "random lists of 1..4 compatible geometries, boxes in either direction")
def union_and_crop(b):
    from pixell import enmap, utils, wcsutils
    rng = b.rng
    for it in range(b.N(250)):
        proj, shape, w = small_geo(rng); geos = []
        for k in range(rng.randint(1,4)):
            w2 = w.deepcopy(); w2.wcs.crpix += [rng.randint(-12,12), rng.randint(-12,12)]; geos.append(((rng.randint(1,9),rng.randint(1,9)), w2))
        b.case("union", proj, [(s, str(g)) for s, g in geos])
        oshape, ow = enmap.union_geometry(geos)
        boxes = np.array([[[0,0],s] for s,g in geos])+np.round([[(w.wcs.crpix-g.wcs.crpix)[::-1]] for s,g in geos]).astype(int)
        lo, hi = boxes.min((0,1)), boxes.max((0,1))
        b.check("union shape", tuple(oshape) == tuple(hi-lo), (oshape, lo, hi)); b.close("union geometry", wk(ow), wk(w)-np.array([lo[1],lo[0],0,0,0,0]))
        # crop to a sky box in either direction
        if proj in ("car","cea","plain"):
            y = sorted(rng.sample(range(0,12),2)); x = sorted(rng.sample(range(0,12),2)); pre = rng.choice([(),(3,)])
            fy, fx = rng.choice([0,1]), rng.choice([0,1])
            e = [[(y[fy])-0.5, (x[fx])-0.5],[(y[1-fy])-0.5,(x[1-fx])-0.5]]
            box = enmap.pix2sky((12,12), w, np.array(e).T).T
            b.case("crop", proj, str(w), e)
            cs, cw = enmap.crop_geometry(pre+(12,12), w, box=box)
            b.check("crop shape", tuple(cs) == pre+(y[1]-y[0],x[1]-x[0]), (cs, y, x)); b.check("crop position", samepos(cw, [(0,0),(1,1)], w, [(y[0],x[0]),(y[0]+1,x[0]+1)]))
            cs, cw = enmap.crop_geometry(pre+(12,12), w, pixbox=[[y[0],x[0]],[y[1],x[1]]]); b.check("crop to pixels", tuple(cs) == pre+(y[1]-y[0],x[1]-x[0]) and samepos(cw, [(0,0),(1,1)], w, [(y[0],x[0]),(y[0]+1,x[0]+1)]), cs)
            cs, cw = enmap.crop_geometry(pre+(12,12), w, pixbox=[4,5], oshape=(5,4)); b.check("crop around a pixel", tuple(cs) == pre+(5,4) and samepos(cw, [(2,2)], w, [(4,5)]), cs)
            pt = enmap.pix2sky((12,12), w, [4,5]); cs, cw = enmap.crop_geometry(pre+(12,12), w, box=pt, oshape=(5,4))
            b.check("crop around a point", tuple(cs) == pre+(5,4) and samepos(cw, [(2,2)], w, [(4,5)]), (cs,))
        for r in ([enmap.recenter_geo(shape, w)[1]] if True else []): b.check("recenter", samepos(r, [(0,0),(2,3)], w, [(0,0),(2,3)]))
        if wcsutils.is_separable(w):
            w3 = w.deepcopy(); w3.wcs.crpix[0] += rng.choice([-1,1])*rng.randint(0,int(300/abs(w.wcs.cdelt[0]))); f = wcsutils.fix_wcs(w3)
            lin = lambda q: (1-q.wcs.crpix[0])*q.wcs.cdelt[0]+q.wcs.crval[0]
            b.close("fix_wcs keeps longitudes", (lin(f)-lin(w3)+180)%360, 180.0, atol=1e-6)
        # pc/cd matrices folded into cdelt
        w4 = w.deepcopy(); sc = [rng.choice([-1,1])*rng.uniform(0.5,2), rng.uniform(0.5,2)]
        if rng.random() < 0.5: w4.wcs.pc = np.diag(sc)
        else: w4.wcs.cd = np.diag(np.array(sc)*w.wcs.cdelt); w4.wcs.cdelt = [1,1]
        f = wcsutils.fix_cdelt(w4); b.check("fix_cdelt", samepos(f, [(0,0),(2,3)], w4, [(0,0),(2,3)]) and np.allclose(f.wcs.cdelt, np.array(sc)*w.wcs.cdelt), (str(f), sc))

@bounded(P, ['pixell.enmap.ndmap.downgrade', 'pixell.enmap.ndmap.upgrade', 'pixell.enmap.ndmap.resample', 'pixell.enmap.ndmap.autocrop', 'pixell.enmap.ndmap.apod', 'pixell.enmap.Geometry.downgrade'], "the map methods of these functions: every argument, and the defaults (one call each)", name="methods_stand_for_functions")
def methods_stand_for_functions(b):
    from pixell import enmap
    from vp.forward import forwarding
    w = geo.real_wcs("car", [3.0,2.0], [-10.0,10.0], [0.0,0.0]); m = enmap.ndmap(np.arange(20.0).reshape(4,5), w)
    forwarding(b, m, enmap.ndmap, enmap, ['downgrade', 'upgrade', 'resample', 'autocrop', 'apod'])
    forwarding(b, enmap.Geometry((4,5), w), enmap.Geometry, enmap, ['downgrade'])
