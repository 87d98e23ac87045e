"""C14: map files: what is read is what was written, and a partial read is a slice of the whole."""
import itertools, os, shutil, tempfile
import numpy as np
from vp.core import *
from vp import geo, smap, load as L
from vp.contracts.c01 import ref_indices, ref_len, _MapOut
P = "C14"
FITSLIB = "astropy.io.fits: hdu.data[sel] and hdu.section[sel] give the selected pixels of the stored image"

class Hdu:
    """an image HDU with a stored array of any shape"""
    def __init__(self, data, header): self.data = self.section = data; self.header = header; self.shape = data.shape; self.size = 10
@contract(P, ["pixell.enmap.ndmap_proxy_fits.__getitem__","pixell.enmap.ndmap_proxy_fits.__init__","pixell.enmap.ndmap_proxy_hdf.__getitem__","pixell.utils.split_slice","pixell.enmap.slice_geometry"], scope="all map sizes (up to 3 leading components), all row and column ranges with steps +-1 and 2, all four read paths", samples=150, trusted=[geo.WCSLIB, smap.NUMPY_VIEWS, FITSLIB], max_paths=6000, wall=300)
def partial_read(c): _partial(c, False)
@contract(P, ["pixell.enmap.ndmap_proxy_fits.__getitem__","pixell.enmap.ndmap_proxy_fits.__init__","pixell.enmap.ndmap_proxy_hdf.__getitem__","pixell.utils.split_slice","pixell.enmap.slice_geometry","pixell.enmap.get_stokes_flips"], scope="all map sizes (up to 3 leading components), any row range, both fits read paths, any position and direction of a Stokes axis", samples=150, trusted=[geo.WCSLIB, smap.NUMPY_VIEWS, FITSLIB], enum_limit=4, max_paths=6000, wall=300)
def partial_read_stokes(c): _partial(c, True)
def _partial(c, stokes):
    w = geo.wcs(c); ny, nx = c.int("ny", lo=1, sample=(1,8)), c.int("nx", lo=1, sample=(1,8)); npre = c.choose("npre",[1,3]) if stokes else 3
    kind, sty, stx = c.choose("kind",[("fits",1,1),("section",1,1)] if stokes else [("fits",-1,1),("fits",2,-1),("section",1,-1),("section",-1,1),("hdf",1,1),("hdf",2,-1),("dataset",-1,-1),("dataset",1,1)])
    sy = slice(c.int("y0"), None if stokes else c.int("y1"), sty); sx = slice(None, None if stokes else c.int("x1"), stx); form = c.choose("form", ["ell","pre"] if stokes else ["ell","full","pre"])
    sel = {"ell":(Ellipsis,sy,sx), "full":(slice(None),sy,sx), "pre":(npre-1,sy,sx)}[form]
    k, j, p = c.int("k", lo=0, sample=(0,8)), c.int("j", lo=0, sample=(0,8)), c.int("p", lo=0, sample=(0,npre-1)); c.assume(p < npre)
    ys, xs = ref_indices(sy, ny), ref_indices(sx, nx); ly, lx = ref_len(*ys), ref_len(*xs); c.assume(k < ly, j < lx)
    E = c.mod("enmap"); hd = {"NAXIS":3}; flip = None
    if stokes:
        crpix, crval = c.int("crpix", sample=(-1,4)), c.int("crval", sample=(0,4)); dv = c.choose("cdelt",[1,-1]); hd.update(CTYPE3="STOKES", CRPIX3=crpix, CRVAL3=crval, CDELT3=dv, POLCCONV=c.choose("conv",["IAU","COSMO"]))
        U = lambda i: And(hd["POLCCONV"] == "IAU", Eq(crval+dv*(i+1-crpix), 3))
    if c.symbolic:
        from vp.contracts.c05 import stub
        base = smap.symbase("m", (npre,ny,nx)); m = smap.SMap(base, wcs=w); raw = m.val; th = 0 if kind in ("section","dataset") else 1e9
        m.size = 10
        with stub(c, E, fix_endian=lambda a: a, ndmap=_MapOut):
            if kind in ("fits","section"): pr = E.ndmap_proxy_fits(Hdu(m, hd), w, threshold=th)
            else: pr = E.ndmap_proxy_hdf(m, w, threshold=th)
            r = type(pr).__getitem__(pr, sel); again = type(pr).__getitem__(pr, sel)
        arr, ow = r.arr, r.wcs; read, second, orig = arr.val, again.arr.val, raw
    else:
        base = np.random.default_rng(1).random((npre,ny,nx)); orig = lambda *I: base[I]; th = 0 if kind in ("section","dataset") else 1e9
        if kind in ("fits","section"):
            import astropy.io.fits as F, tempfile, os
            h = F.PrimaryHDU(base.astype(">f8")); [h.header.__setitem__(q, v) for q, v in hd.items() if q != "NAXIS"]
            d = tempfile.mkdtemp()
            try:
                f = os.path.join(d, "a.fits"); h.writeto(f)
                with F.open(f) as hl: pr = E.ndmap_proxy_fits(hl[0], w, threshold=th); r = pr[sel].copy(); again = pr[sel].copy()
            finally: shutil.rmtree(d)
        else: pr = E.ndmap_proxy_hdf(base, w, threshold=th); r = pr[sel]; again = pr[sel]
        arr, ow = np.asarray(r), r.wcs; read, second = (lambda *I: arr[I]), (lambda *I: np.asarray(again)[I])
    c.check("shape", And(len(arr.shape) == (2 if form == "pre" else 3), Eq(arr.shape[-2], ly), Eq(arr.shape[-1], lx)))
    comp = npre-1 if form == "pre" else p; I = (k,j) if form == "pre" else (p,k,j); v = orig(comp, ys[0]+ys[2]*k, xs[0]+xs[2]*j)
    if stokes: v = ite(U(comp), -v, v)
    c.check("value", Eq(read(*I), v)); c.check("the same when read again", Eq(second(*I), v))
    st = lambda s: 1 if s.step is None else s.step
    bc = lambda q, i: q[0]+q[2]*i+(q[2]-(1 if q[2] > 0 else -1))/2
    c.check("sky position", geo.same_sky(c, w, (bc(ys,k), bc(xs,j)), ow, (k,j)))

def rgeo(b):
    from pixell import enmap, utils
    rng = b.rng; proj = rng.choice(["car","car","cea","tan","zea","plain","full"])
    if proj == "full": s, w = enmap.fullsky_geometry(shape=(rng.randint(4,8),rng.choice([8,12])))
    elif proj == "plain": s, w = enmap.geometry(pos=(0,0), shape=(rng.randint(2,9),rng.randint(2,9)), res=0.7, proj="plain")
    else: s, w = enmap.geometry(pos=(rng.uniform(-1,1),rng.uniform(-3,3)), shape=(rng.randint(2,9),rng.randint(2,9)), res=rng.uniform(0.2,2)*utils.degree, proj=proj)
    if rng.random() < 0.5: s, w = enmap.slice_geometry(s, w, (slice(None,None,rng.choice([1,-1])),slice(None,None,rng.choice([1,-1]))))
    return tuple(s), w
def samegeo(b, name, w1, w2, s):
    """same sky positions to header accuracy (12 digits)"""
    from pixell import enmap
    pix = np.array([[0,s[-2]-1,0.3],[0,s[-1]-1,0.8]]); p, q = enmap.pix2sky(s, w1, pix, safe=False), enmap.pix2sky(s, w2, pix, safe=False)
    d = np.abs(p-q); ok = np.isnan(p)|np.isnan(q); d[ok] = 0; b.check(name, np.all(np.minimum(d, np.abs(d-2*np.pi)) < 1e-9*(1+np.abs(np.where(ok,0,p)))) and np.array_equal(np.isnan(p),np.isnan(q)), (p,q))
def rsel(b, shape):
    rng = b.rng
    def sl(n):
        a = rng.choice([None,rng.randint(-n,n)]); e = rng.choice([None,rng.randint(-n,n)]); return slice(a, e, rng.choice([None,1,1,2,-1,-2,3]))
    pre = [rng.choice([slice(None),sl(n),rng.randint(0,n-1),-1]) for n in shape[:-2]]; post = [sl(n) for n in shape[-2:]]
    return rng.choice([tuple(pre)+tuple(post), (Ellipsis,)+tuple(post), tuple(pre[:1])+(Ellipsis,)+tuple(post[1:]), tuple(pre)+tuple(post[:1]), Ellipsis, tuple(pre)])
DT = ["f4","f8","f8","f8","i2","i4","i8","u1","u2","u4","i1"]

@bounded(P, ["pixell.enmap.write_map","pixell.enmap.read_map","pixell.enmap.write_fits","pixell.enmap.read_fits","pixell.enmap.write_hdf","pixell.enmap.read_hdf","pixell.enmap.read_helper","pixell.enmap.read_map_geometry","pixell.enmap.read_fits_geometry","pixell.enmap.read_hdf_geometry","pixell.enmap.read_fits_header","pixell.enmap.read_map_dtype","pixell.enmap.read_fits_dtype","pixell.enmap.write_map_geometry","pixell.enmap.write_fits_geometry","pixell.enmap.fix_endian","pixell.enmap.get_stokes_flips","pixell.enmap.ndmap_proxy_fits","pixell.enmap.ndmap_proxy_hdf","pixell.enmap.read_npy"], "random maps up to 9x9 with up to two leading axes, 11 data types, 6 projections, fits, compressed fits and hdf; files in a scratch directory")
def files(b):
    from pixell import enmap, wcsutils
    rng = b.rng; tmp = tempfile.mkdtemp()
    try:
        for it in range(b.N(150)):
            s, w = rgeo(b); lead = tuple(rng.randint(1,3) for _ in range(rng.randint(0,2))); dt = rng.choice(DT); ext = rng.choice(["fits","fits","hdf","fits.gz"]); f = os.path.join(tmp, "m%d.%s" % (it%7, ext)); plain = not wcsutils.is_cyl(w) and "RA" not in w.wcs.ctype[0]
            m = enmap.ndmap((b.nrng.standard_normal(lead+s)*40+(50 if dt[0] in "u" else 0)).clip(*((0,250) if dt[0] == "u" else (-120,120))).astype(dt), w); m0, w0 = m.copy(), w.deepcopy(); b.case(lead+s, repr(w), dt, ext)
            enmap.write_map(f, m, extra={"FOO":3} if rng.random() < 0.3 else {}); b.eq("writing leaves the map alone", m, m0); b.check("and its geometry", wcsutils.equal(w, w0, tol=0) if False else repr(w) == repr(w0))
            r = enmap.read_map(f); b.check("data type", r.dtype == np.dtype(dt), r.dtype); b.eq("values", np.asarray(r), np.asarray(m0)); samegeo(b, "geometry", r.wcs, w, s); b.check("map", isinstance(r, enmap.ndmap) and r.flags.writeable and r.flags.c_contiguous)
            b.check("kind of projection kept", list(r.wcs.wcs.ctype) == list(w.wcs.ctype))
            gs, gw = enmap.read_map_geometry(f); b.check("shape without reading", tuple(gs) == lead+s, gs); b.check("geometry without reading", repr(gw) == repr(r.wcs), (gw,r.wcs)); b.check("data type without reading", np.dtype(enmap.read_map_dtype(f)) == np.dtype(dt), enmap.read_map_dtype(f))
            th = rng.choice([0,10e6]); full = r.copy()
            def same(name, a, q): b.check(name+": shape", a.shape == q.shape, (a.shape,q.shape)); b.eq(name+": values", np.asarray(a), np.asarray(q)); b.check(name+": geometry", wcsutils.equal(a.wcs, q.wcs), (a.wcs,q.wcs)); b.check(name+": data type", a.dtype == q.dtype)
            for _ in range(3):
                sel = rsel(b, lead+s); b.case("sel", lead+s, dt, ext, sel, th)
                try: want = full[sel]
                except IndexError: continue
                if want.ndim < 2 or want.size == 0: continue
                same("selection", enmap.read_map(f, sel=sel, sel_threshold=th), want)
            y, x = rng.randint(-6,8), rng.randint(-9,12); pb = [[y,x],[y+rng.randint(1,9),x+rng.randint(1,20)]]; b.case("pixbox", lead+s, ext, repr(w), pb)
            same("pixel box", enmap.read_map(f, pixbox=pb, sel_threshold=th), full.extract_pixbox(pb)); q = full.extract_pixbox(pb); same("pixel box and selection", enmap.read_map(f, pixbox=pb, sel=(Ellipsis,slice(None,None,-1)), sel_threshold=th), q[...,::-1])
            same("geometry given", enmap.read_map(f, geometry=(q.shape,q.wcs), sel_threshold=th), full.extract(q.shape, q.wcs))
            if wcsutils.is_cyl(w):
                bx = full.box()+b.nrng.uniform(-.02,.02,(2,2)); mode = rng.choice([None,"inclusive","exclusive","floor","ceil"]); b.case("box", lead+s, ext, repr(w), bx, mode); same("sky box", enmap.read_map(f, box=bx, mode=mode, sel_threshold=th), full.submap(bx, mode=mode))
            # delayed reading
            pr = enmap.read_map(f, delayed=True, sel_threshold=th); b.check("delayed: shape and type", tuple(pr.shape) == lead+s and pr.dtype == r.dtype and pr.ndim == r.ndim)
            for _ in range(3):
                sl = (Ellipsis,slice(rng.randint(0,s[0]-1),None),slice(None,None,rng.choice([1,-1]))); b.case("delayed", lead+s, ext, dt, sl, th); same("delayed read", pr[sl], full[sl])
            pos = full.pix2sky([s[0]//2,s[1]//2])
            # file name selectors
            txt, sl = rng.choice([("[...,1:]",np.s_[...,1:]),("[...,::-1,:]",np.s_[...,::-1,:]),("[:1]",np.s_[:1])]+([("[0]",np.s_[0]),("[0,...,1:2]",np.s_[0,...,1:2])] if lead else [])); b.case("name selector", lead+s, ext, txt)
            a = enmap.read_map(f+":"+txt); same("selector in the name", a, full[sl]); gs, gw = enmap.read_map_geometry(f+":"+txt); b.check("selector in the name: geometry", tuple(gs) == full[sl].shape and wcsutils.equal(gw, full[sl].wcs), (gs, full[sl].shape))
            if ext != "hdf":
                g = os.path.join(tmp, "g.fits"); enmap.write_map_geometry(g, lead+s, w); gs, gw = enmap.read_map_geometry(g); b.check("geometry file", tuple(gs) == lead+s); samegeo(b, "geometry file positions", gw, w, s)
            else:
                enmap.write_map(f, full, address="a/b"); enmap.write_map(f, full*2, address="c"); enmap.write_map(f, full*3 if dt[0] == "f" else full, address="a/b"); same("address", enmap.read_map(f, address="c"), (full*2).astype(full.dtype) if False else full*2); b.check("address geometry", enmap.read_map_geometry(f, address="c")[0] == full.shape and enmap.read_map_dtype(f, address="c") == (full*2).dtype)
            # polarisation convention
            if lead and ext == "fits" and dt in ("f4","f8","i4") and lead[0] == 3 and len(lead) == 1:
                cp, cv, cd = rng.choice([1,2,3]), rng.choice([1,2,3,4]), rng.choice([1,-1]); conv = rng.choice(["IAU","COSMO"]); b.case("stokes", cp, cv, cd, conv); enmap.write_map(f, full, extra=dict(CTYPE3="STOKES",CRPIX3=cp,CRVAL3=cv,CDELT3=cd,POLCCONV=conv)); sg = np.array([-1 if conv == "IAU" and cv+cd*(i+1-cp) == 3 else 1 for i in range(3)]).astype(full.dtype)[:,None,None]
                want = enmap.samewcs(full*sg, full); got = enmap.read_map(f, sel_threshold=th); same("U changes sign from IAU", got, want); sel = rsel(b, lead+s)
                if want[sel].ndim > 1 and want[sel].size: same("also for a part", enmap.read_map(f, sel=sel, sel_threshold=th), want[sel])
                pr = enmap.read_map(f, delayed=True, sel_threshold=th); pr[:]; same("and when read twice", pr[:], want)
            q = os.path.join(tmp, "m.npy"); np.save(q, np.asarray(full)); same("npy", enmap.read_map(q, wcs=full.wcs), full)
    finally: shutil.rmtree(tmp)

@bounded(P, ["pixell.multimap.write_map","pixell.multimap.read_map","pixell.bunch.read","pixell.bunch.write","pixell.bunch.split_hdf_path"], "random lists of maps and nested bunches; files in a scratch directory")
def containers(b):
    from pixell import enmap, multimap, bunch, wcsutils
    rng = b.rng; tmp = tempfile.mkdtemp()
    try:
        for it in range(b.N(60)):
            n = rng.randint(1,4); lead = tuple(rng.randint(1,3) for _ in range(rng.randint(0,2))); maps = []
            for i in range(n): s, w = rgeo(b); maps.append(enmap.ndmap(b.nrng.standard_normal(lead+s), w))
            mm = multimap.multimap(maps); f = os.path.join(tmp, "mm.fits"); b.case("multimap", lead, [m.shape for m in maps]); multimap.write_map(f, mm); r = multimap.read_map(f); b.check("number of maps", r.nmap == n)
            for i in range(n): b.eq("maps read back", np.asarray(r.maps[i]), np.asarray(maps[i])); samegeo(b, "map geometry", r.maps[i].wcs, maps[i].wcs, maps[i].shape); one = enmap.read_map(f, hdu=i); b.eq("single map", np.asarray(one), np.asarray(maps[i])); b.check("single geometry", enmap.read_map_geometry(f, hdu=i)[0] == maps[i].shape)
            sel = (Ellipsis,slice(None,None,-1)); r = multimap.read_map(f, sel=sel)
            for i in range(n): b.eq("part of each", np.asarray(r.maps[i]), np.asarray(maps[i][sel]))
            def rb(d): return bunch.Bunch(**{k: (rb(d-1) if d and rng.random() < 0.4 else rng.choice([3, 2.5, b.nrng.standard_normal(3), b.nrng.integers(0,9,(2,2))])) for k in rng.sample("abcdef", rng.randint(1,4))})
            x = rb(2); g = rng.choice([None,None,"grp","g1/g2"]); f = os.path.join(tmp, "x.hdf"); b.case("bunch", x, g); inl = rng.random() < 0.5
            if g and inl: bunch.write(f+"/"+g, x); y = bunch.read(f+"/"+g)
            else: bunch.write(f, x, group=g); y = bunch.read(f, group=g)
            def eq(p, q): return set(p.keys()) == set(q.keys()) and all(eq(p[k],q[k]) if isinstance(p[k], bunch.Bunch) else (not isinstance(q[k], bunch.Bunch) and np.array_equal(p[k],q[k])) for k in p.keys())
            b.check("bunch read back", eq(x,y), (x,y))
            fn, gr = bunch.split_hdf_path("a/b/c.d/e/f"); b.check("documented split", (fn,gr) == ("a/b/c.d","e/f"))
    finally: shutil.rmtree(tmp)
