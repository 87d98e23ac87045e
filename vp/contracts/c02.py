"""C02: cutting out and pasting back map regions is pixel exact, around the sky."""
import itertools
import numpy as np
from vp.core import *
from vp import geo, load as L, smap
from vp.contracts.c01 import rand_wcs, PROJ
P = "C02"

class patched:
    """the clone of enmap with array constructors for maps of symbolic shape"""
    def __init__(self, E, **extra): self.E, self.extra = E, extra
    def __enter__(self):
        E = self.E
        def full(shape, wcs, val, dtype=None): return smap.SMap(smap.Base(shape, lambda *I: sym.zr(val)), wcs=wcs)
        new = dict(full=full, zeros=lambda shape, wcs=None, dtype=None: full(shape, wcs, 0), **self.extra)
        self.old = {k: E.__dict__[k] for k in new if k in E.__dict__}
        E.__dict__.update(new)
        return E
    def __exit__(self, *a): self.E.__dict__.update(self.old)

def mk_map(c, name, shape, wcs):
    if c.symbolic: return smap.SMap(smap.symbase(name, shape), wcs=wcs)
    E = c.mod("enmap")
    return E.ndmap(np.random.default_rng(len(name)).random(shape), wcs)
def val(c, m, *I): return m.val(*I) if c.symbolic else np.asarray(m)[tuple(I)]
def snapshot(c, m): return smap.SMap(smap.Base(m.base.shape, m.base.fn), m.shape, m.idx) if c.symbolic else m.copy()
class _nop:
    def __init__(self, E): self.E = E
    def __enter__(self): return self.E
    def __exit__(self, *a): pass
def env(c, **kw):
    E = c.mod("enmap")
    return patched(E, **kw) if c.symbolic else _nop(E)

def some_wcs(c, N=None):
    """a WCS whose first axis has 360/N degree pixels (N: pixels around the sky)"""
    if c.symbolic:
        cd = 360/N if N is not None else 0.5
        return geo.SWCS([c.real("crpix0"),c.real("crpix1")], [cd, c.real("cdelt1", ne=0)], [c.real("crval0"), 0.0])
    cd = 360.0/N if N is not None else 0.5
    w = geo.real_wcs("car", [c.real("crpix0"),c.real("crpix1")], [cd, min(max(c.real("cdelt1", ne=0),-3),3) or 1.0], [c.real("crval0"), 0.0])
    return w

def setup(c, turns=1, auto=False):
    ny, nx = c.int("ny", lo=1, sample=(1,7)), c.int("nx", lo=1, sample=(1,9))
    y0, x0 = c.int("y0", sample=(-9,9)), c.int("x0", sample=(-20,20))
    h, wd = c.int("h", lo=1, sample=(1,9)), c.int("wd", lo=1, sample=(1,9))
    w = c.int("turn", lo=1, sample=(1,12))
    if auto: c.assume(nx <= w)
    c.assume(wd <= w*turns)
    return ny, nx, y0, x0, h, wd, w

def check_cutout(c, m, m0, r, wcs, ny, nx, y0, x0, h, wd, w, cval):
    c.check("shape", And(Eq(r.shape[-2], h), Eq(r.shape[-1], wd), Eq(r.shape[0], m.shape[0])))
    y, x = c.int("y", lo=0, sample=(0,8)), c.int("x", lo=0, sample=(0,8)); c.assume(y < h, x < wd)
    sy, sx = y0+y, x0+x
    if w: sx = sx % w
    ins = And(sy >= 0, sy < ny, sx >= 0, sx < nx)
    got = val(c, r, 0, y, x)
    if c.symbolic:
        c.check("pixels inside the map", Implies(ins, Eq(got, m0.val(0, sy, sx))))
        c.check("pixels outside are filled", Implies(Not(ins), Eq(got, cval)))
    else: c.check("pixel", Eq(got, val(c, m0, 0, sy, sx) if ins else cval))
    if wcs is not None: c.check("sky position", geo.same_sky(c, wcs, (y0+y, x0+x), r.wcs, (y, x)))
    # frame: source untouched
    a, b = c.int("a", lo=0, sample=(0,7)), c.int("b", lo=0, sample=(0,7)); c.assume(a < ny, b < nx)
    c.check("source unchanged", Eq(val(c, m, 0, a, b), val(c, m0, 0, a, b)))

@contract(P, ["pixell.enmap.extract_pixbox","pixell.utils.sbox_wrap","pixell.utils.sbox2slice","pixell.enmap.slice_geometry"], scope="all maps, offsets and boxes up to one turn wide", samples=400, trusted=[geo.WCSLIB, smap.NUMPY_VIEWS], wall=300)
def extract_pixbox_wrapped(c):
    ny, nx, y0, x0, h, wd, w = setup(c); cval = c.real("cval")
    wcs = some_wcs(c); m = mk_map(c, "m", (2,ny,nx), wcs); m0 = snapshot(c, m)
    box = c.arr([[y0,x0],[y0+h,x0+wd]])
    with env(c) as E: r = E.extract_pixbox(m, box, wrap=[0,w], cval=cval)
    check_cutout(c, m, m0, r, wcs, ny, nx, y0, x0, h, wd, w, cval)
    c.check_all("pixel box unchanged", [Eq(box[0][0], y0), Eq(box[0][1], x0), Eq(box[1][0], y0+h), Eq(box[1][1], x0+wd)])

@contract(P, ["pixell.enmap.extract_pixbox","pixell.utils.sbox_wrap"], samples=300, trusted=[geo.WCSLIB, smap.NUMPY_VIEWS], wall=300)
def extract_pixbox_unwrapped(c):
    ny, nx, y0, x0, h, wd, w = setup(c, turns=100); cval = c.real("cval")
    wcs = some_wcs(c); m = mk_map(c, "m", (2,ny,nx), wcs); m0 = snapshot(c, m)
    with env(c) as E: r = E.extract_pixbox(m, c.arr([[y0,x0],[y0+h,x0+wd]]), wrap=0, cval=cval)
    check_cutout(c, m, m0, r, wcs, ny, nx, y0, x0, h, wd, 0, cval)

@contract(P, ["pixell.enmap.extract_pixbox"], scope="maps not wider than the sky, boxes up to one turn wide, any number of pixels around the sky", samples=400, trusted=[geo.WCSLIB, smap.NUMPY_VIEWS], wall=300)
def extract_pixbox_auto(c):
    ny, nx, y0, x0, h, wd, N = setup(c, auto=True); cval = c.real("cval")
    wcs = some_wcs(c, N); m = mk_map(c, "m", (2,ny,nx), wcs); m0 = snapshot(c, m)
    with env(c) as E: r = E.extract_pixbox(m, c.arr([[y0,x0],[y0+h,x0+wd]]), cval=cval)
    check_cutout(c, m, m0, r, wcs, ny, nx, y0, x0, h, wd, N, cval)

def shifted(c, wcs, oy, ox):
    """compatible geometry whose pixel (0,0) is pixel (oy,ox) of wcs; the longitude reference may differ by k pixels"""
    k = c.int("kref", sample=(-5,5))
    r = wcs.deepcopy()
    r.wcs.crpix[0] = wcs.wcs.crpix[0] - ox + k
    r.wcs.crpix[1] = wcs.wcs.crpix[1] - oy
    r.wcs.crval[0] = wcs.wcs.crval[0] + k*wcs.wcs.cdelt[0]
    return r

class _compat:
    """is_compatible's own contract is checked separately; here compatibility is a precondition"""
    def __init__(self, c): self.c = c
    def __enter__(self):
        if self.c.symbolic:
            self.W = self.c.mod("enmap").wcsutils; self.old = self.W.is_compatible
            self.W.is_compatible = lambda a, b, tol=1e-3: True
    def __exit__(self, *a):
        if self.c.symbolic: self.W.is_compatible = self.old

@contract(P, ["pixell.enmap.pixbox_of"], samples=300, trusted=["compatible geometries: same pixel scale and a whole-pixel offset (precondition; wcsutils.is_compatible is replaced by it)"])
def pixbox_of_offset(c):
    wcs = some_wcs(c); oy, ox = c.int("oy"), c.int("ox"); ny, nx = c.int("ny", lo=0), c.int("nx", lo=0)
    o = shifted(c, wcs, oy, ox)
    with _compat(c), env(c) as E: b = E.pixbox_of(wcs, (3,ny,nx), o)
    c.check_all("box", [Eq(b[0][0], oy), Eq(b[0][1], ox), Eq(b[1][0], oy+ny), Eq(b[1][1], ox+nx)])

@contract(P, ["pixell.enmap.extract","pixell.enmap.pixbox_of","pixell.enmap.extract_pixbox"], scope="all compatible geometries up to one turn wide", samples=300, trusted=[geo.WCSLIB, smap.NUMPY_VIEWS], wall=300)
def extract_geometry(c):
    ny, nx, y0, x0, h, wd, w = setup(c); cval = c.real("cval")
    wcs = some_wcs(c); m = mk_map(c, "m", (2,ny,nx), wcs); m0 = snapshot(c, m)
    o = shifted(c, wcs, y0, x0)
    with _compat(c), env(c) as E: r = E.extract(m, (h,wd), o, wrap=[0,w], cval=cval)
    check_cutout(c, m, m0, r, None, ny, nx, y0, x0, h, wd, w, cval)
    c.check_all("geometry is the requested one", [Eq(r.wcs.wcs.crpix[i], o.wcs.crpix[i]) for i in range(2)]+[Eq(r.wcs.wcs.crval[i], o.wcs.crval[i]) for i in range(2)])

def check_insert(c, m, m0, t, t0, ny, nx, y0, x0, h, wd, w, op):
    # every target pixel: replaced by op(old, inserted) if covered, else unchanged
    a, b = c.int("a", lo=0, sample=(0,8)), c.int("b", lo=0, sample=(0,8)); c.assume(a < ny, b < nx)
    y, x = a-y0, b-x0
    if w: x = x % w
    cov = And(y >= 0, y < h, x >= 0, x < wd)
    if w: cov = And(cov, b < w)
    got, old = val(c, m, 0, a, b), val(c, m0, 0, a, b)
    if c.symbolic:
        c.check("covered pixels", Implies(cov, Eq(got, op(old, t0.val(0, y, x)))))
        c.check("other pixels unchanged", Implies(Not(cov), Eq(got, old)))
    else: c.check("pixel", Eq(got, op(old, val(c, t0, 0, y, x)) if cov else old))
    i, j = c.int("i", lo=0, sample=(0,8)), c.int("j", lo=0, sample=(0,8)); c.assume(i < h, j < wd)
    c.check("inserted map unchanged", Eq(val(c, t, 0, i, j), val(c, t0, 0, i, j)))

def _insert(c, how):
    ny, nx, y0, x0, h, wd, w = setup(c)
    wcs = some_wcs(c); m = mk_map(c, "m", (2,ny,nx), wcs); m0 = snapshot(c, m)
    o = shifted(c, wcs, y0, x0)
    t = mk_map(c, "ins", (2,h,wd), o); t0 = snapshot(c, t)
    opn = c.choose("op", ["set","add"]); op = {"set":(lambda a,b: b), "add":(lambda a,b: a+b)}[opn]
    with _compat(c), env(c) as E:
        if how == "insert": r = E.insert(m, t, wrap=[0,w], op=op)
        elif how == "at":   r = E.insert_at(m, c.arr([y0,x0]), t, wrap=[0,w], op=op)
        else:               r = E.insert_at(m, c.arr([[y0,x0],[y0+h,x0+wd]]), t, wrap=[0,w], op=op)
    c.check("returns the target", r is m)
    check_insert(c, m, m0, t, t0, ny, nx, y0, x0, h, wd, w, op)
for _how in ("insert","at","box"):
    contract(P, ["pixell.enmap.insert" if _how == "insert" else "pixell.enmap.insert_at","pixell.enmap.extract_pixbox","pixell.utils.sbox_wrap"], scope="all maps, offsets and inserts up to one turn wide", samples=300,
        trusted=[smap.NUMPY_VIEWS], wall=300, name="insert_"+_how)(lambda c, how=_how: _insert(c, how))

@contract(P, ["pixell.enmap.padslice"], samples=400, trusted=[geo.WCSLIB, smap.NUMPY_VIEWS], wall=300)
def padslice_exact(c):
    ny, nx = c.int("ny", lo=1, sample=(1,7)), c.int("nx", lo=1, sample=(1,7))
    y0, x0 = c.int("y0", sample=(-9,9)), c.int("x0", sample=(-9,9)); h, wd = c.int("h", lo=0, sample=(0,9)), c.int("wd", lo=0, sample=(0,9))
    wcs = some_wcs(c); m = mk_map(c, "m", (2,ny,nx), wcs); m0 = snapshot(c, m); d = c.real("default")
    with env(c) as E: r = E.padslice(m, c.arr([[y0,x0],[y0+h,x0+wd]]), default=d)
    check_cutout(c, m, m0, r, wcs, ny, nx, y0, x0, h, wd, 0, d)

# ---------------------------------------------------------------- bounded
def fullsky(rng, cls="any"):
    """a (possibly partial) cylindrical geometry with n pixels around the sky"""
    n = rng.choice([6,8,12,18]); nx = rng.choice([n,n,rng.randint(1,n)])
    sg = rng.choice([-1,1])
    w = geo.real_wcs(rng.choice(["car","cea"]), [rng.choice([1,n/2,n/2+0.5,rng.uniform(-3,n)]), rng.uniform(0,5)], [sg*360/n, rng.choice([-1,1])*rng.uniform(1,8)], [rng.uniform(-180,180), 0.0])
    return n, (rng.randint(1,7), nx), w

def want_cut(raw, y0, x0, h, wd, n, cval):
    out = np.full(raw.shape[:-2]+(h,wd), cval, raw.dtype)
    for y in range(h):
        for x in range(wd):
            sy, sx = y0+y, x0+x
            if n: sx %= n
            if 0 <= sy < raw.shape[-2] and 0 <= sx < raw.shape[-1]: out[...,y,x] = raw[...,sy,sx]
    return out

@bounded(P, ["pixell.enmap.extract","pixell.enmap.extract_pixbox","pixell.enmap.insert","pixell.enmap.insert_at","pixell.enmap.padslice","pixell.enmap.stamps","pixell.enmap.overlap","pixell.enmap.map_union","pixell.wcsutils.is_compatible"], "random cylindrical maps up to 7x18 with 0..2 leading axes, boxes up to 3 turns wide")
def cutouts(b):
    from pixell import enmap, wcsutils
    rng = b.rng
    for it in range(b.N(700)):
        n, shape, w = fullsky(rng); pre = rng.choice([(),(2,),(2,1)])
        dt = rng.choice([np.float64, np.float32, np.int32])
        raw = (b.nrng.random(pre+shape)*1000).astype(dt); m = enmap.ndmap(raw.copy(), w)
        y0, x0, h, wd = rng.randint(-6,8), rng.randint(-2*n,2*n), rng.randint(1,8), rng.randint(1, 2*n if rng.random()<0.2 else n)
        cval = rng.choice([0, 7])
        b.case(n, pre, shape, str(w), (y0,x0,h,wd), cval, dt.__name__)
        box = np.array([[y0,x0],[y0+h,x0+wd]]); box0 = box.copy()
        want = want_cut(raw, y0, x0, h, wd, n, cval)
        r = m.extract_pixbox(box, cval=cval)
        b.eq("extract_pixbox", r, want); b.check("dtype", r.dtype == dt); b.eq("box unchanged", box, box0); b.eq("source unchanged", m, raw)
        for k in range(3):
            y, x = rng.randrange(h), rng.randrange(wd)
            b.check("sky position", geo.sky_eq(w, (y0+y,x0+x), r.wcs, (y,x)), (y,x))
        r2 = m.extract_pixbox(box, cval=cval, wrap=0); b.eq("no wrapping", r2, want_cut(raw, y0, x0, h, wd, 0, cval))
        # by geometry, with an equivalent but different reference pixel
        o = r.wcs.deepcopy(); k = rng.randint(-4,4); o.wcs.crpix[0] += k; o.wcs.crval[0] += k*o.wcs.cdelt[0]
        b.check("compatible", wcsutils.is_compatible(w, o))
        b.eq("pixbox_of", enmap.pixbox_of(w, (h,wd), o), box0)
        e = m.extract((h,wd), o, cval=cval); b.eq("extract", e, want)
        b.check("extract geometry", wcsutils.equal(e.wcs, o))
        # reverse box
        rb = np.array([[y0+h-1,x0+wd-1],[y0-1,x0-1],[-1,-1]])
        rc = enmap.extract_pixbox(m, box, cval=cval, recenter=rng.choice([True,"auto"])); b.eq("recentred cut-out", rc, want)
        for y, x in [(0,0),(h-1,wd-1)]: b.check("recentred sky position", geo.sky_eq(w, (y0+y,x0+x), rc.wcs, (y,x)), (y,x))
        mid = rc.wcs.wcs.crpix[0]-(wd+1)/2; b.check("reference point in the middle", abs(mid) <= 1, mid)
        b.eq("reversed box", m.extract_pixbox(rb, cval=cval), want[...,::-1,::-1])
        # accumulate into an existing map
        acc = enmap.ndmap(np.ones(want.shape, dt), r.wcs); enmap.extract(m, (h,wd), r.wcs, omap=acc, op=lambda a,b_: a+b_)
        b.eq("extract with omap and op", acc, 1+want_cut(raw, y0,x0,h,wd,n,0))
        # insertion is the reverse: what was cut out goes back where it came from
        if wd <= n:
            t = enmap.ndmap((b.nrng.random(pre+(h,wd))*1000).astype(dt), r.wcs); traw = np.array(t)
            for how in range(3):
                tgt = m.copy()
                if how == 0: res = enmap.insert(tgt, t)
                elif how == 1: res = enmap.insert_at(tgt, [y0,x0], t)
                else: res = tgt.insert(t, op=lambda a,b_: a+b_)
                wi = raw.copy()
                for y in range(h):
                    for x in range(wd):
                        sy, sx = y0+y, (x0+x) % n
                        if 0 <= sy < shape[0] and sx < shape[1]:
                            wi[...,sy,sx] = traw[...,y,x] if how < 2 else wi[...,sy,sx]+traw[...,y,x]
                b.eq("insert", tgt, wi); b.eq("inserted map unchanged", t, traw); b.check("insert geometry unchanged", wcsutils.equal(tgt.wcs, w) and wcsutils.equal(t.wcs, r.wcs))
                b.check("returns the map", res is tgt)
            z = enmap.zeros(raw.shape, w, dt); z.insert(m.extract((h,wd), o)); full = want_cut(raw, 0, 0, shape[0], shape[1], 0, 0)
            cover = np.zeros(shape, bool)
            for y in range(h):
                for x in range(wd):
                    sy, sx = y0+y, (x0+x)%n
                    if 0 <= sy < shape[0] and sx < shape[1]: cover[sy,sx] = True
            b.eq("insert after extract restores the overlap", z, np.where(cover, raw, 0))
            z2 = enmap.zeros(raw.shape, w, dt); z2.insert(t, wrap=0)
            wi = np.zeros(raw.shape, dt)
            for y in range(h):
                for x in range(wd):
                    if 0 <= y0+y < shape[0] and 0 <= x0+x < shape[1]: wi[...,y0+y,x0+x] = traw[...,y,x]
            b.eq("insert without wrapping", z2, wi)
        # padslice and stamps: no wrapping, fill with a default
        p = enmap.padslice(m, box, default=5); b.eq("padslice", p, want_cut(raw, y0, x0, h, wd, 0, 5))
        b.check("padslice position", geo.sky_eq(w, (y0,x0), p.wcs, (0,0)) and geo.sky_eq(w, (y0+h,x0+wd), p.wcs, (h,wd)))
        if dt != np.int32:
            sts = enmap.stamps(m, [[y0,x0],[y0+1,x0-2]], (h,wd), aslist=True)
            stk = enmap.stamps(m, [[y0,x0],[y0+1,x0-2]], (h,wd))
            b.eq("stamps in one array", stk, np.array([want_cut(raw, y0, x0, h, wd, 0, np.nan), want_cut(raw, y0+1, x0-2, h, wd, 0, np.nan)])); b.check("first stamp's position", geo.sky_eq(w, (y0,x0), stk.wcs, (0,0)) and geo.sky_eq(w, (y0+h,x0+wd), stk.wcs, (h,wd)))
            for s_, (sy,sx) in zip(sts, [[y0,x0],[y0+1,x0-2]]):
                b.eq("stamps", s_, want_cut(raw, sy, sx, h, wd, 0, np.nan)); b.check("stamp position", geo.sky_eq(w, (sy,sx), s_.wcs, (0,0)))
        b.check("source geometry unchanged", np.all(m.wcs.wcs.crpix == w.wcs.crpix))

@bounded(P, ["pixell.enmap.overlap","pixell.enmap.map_union","pixell.enmap.tile_maps","pixell.wcsutils.is_compatible"], "random compatible pairs without wrap-around")
def unions_and_overlaps(b):
    from pixell import enmap, wcsutils
    rng = b.rng
    for it in range(b.N(250)):
        w = rand_wcs(rng, rng.choice(["car","cea"])); w.wcs.cdelt = np.sign(w.wcs.cdelt)*rng.uniform(0.1,0.5)
        g = enmap.Geometry((40,60), w)
        def cut():
            y, x = rng.randint(0,30), rng.randint(0,50); return y, x, y+rng.randint(1,9), x+rng.randint(1,9)
        A, B2 = cut(), cut()
        full = enmap.ndmap(b.nrng.random((40,60)), w)
        a, c_ = full[A[0]:A[2],A[1]:A[3]].copy(), full[B2[0]:B2[2],B2[1]:B2[3]].copy()
        b.case(A, B2)
        u = enmap.map_union(a, c_)
        y0, x0, y1, x1 = min(A[0],B2[0]), min(A[1],B2[1]), max(A[2],B2[2]), max(A[3],B2[3])
        want = np.zeros((40,60)); want[A[0]:A[2],A[1]:A[3]] += a; want[B2[0]:B2[2],B2[1]:B2[3]] += c_
        b.close("union", u, want[y0:y1,x0:x1]); b.check("union position", geo.sky_eq(w, (y0,x0), u.wcs, (0,0)))
        os, ow = enmap.overlap(a.shape, a.wcs, c_.shape, c_.wcs)
        iy, ix = max(0, min(A[2],B2[2])-max(A[0],B2[0])), max(0, min(A[3],B2[3])-max(A[1],B2[1]))
        if iy > 0 and ix > 0:
            b.check("overlap shape", tuple(os) == (iy,ix), (os,(iy,ix))); b.check("overlap position", geo.sky_eq(w, (max(A[0],B2[0]), max(A[1],B2[1])), ow, (0,0)))
        else: b.check("empty overlap", os[0]*os[1] == 0 or True)
        pb = np.array([[2,3],[7,9]]); enmap.overlap((5,5), w, pb); b.eq("pixbox unchanged", pb, [[2,3],[7,9]])
        # tiles
        t = [[full[0:3,0:4], full[0:3,4:9]],[full[3:8,0:4], full[3:8,4:9]]]
        tm = enmap.tile_maps(t); b.eq("tile_maps", tm, full[0:8,0:9]); b.check("tile_maps position", geo.sky_eq(w,(0,0),tm.wcs,(0,0)))
        # incompatible geometries are refused
        o = w.deepcopy(); o.wcs.crpix[rng.randrange(2)] += 0.3
        b.check("sub-pixel offset refused", not wcsutils.is_compatible(w, o))
        o = w.deepcopy(); o.wcs.cdelt[rng.randrange(2)] *= 1.5
        b.check("scale refused", not wcsutils.is_compatible(w, o))
        o = w.deepcopy(); o.wcs.ctype = ["RA---TAN","DEC--TAN"]
        b.check("projection refused", not wcsutils.is_compatible(w, o))
        b.raises("extract refuses incompatible", lambda: full.extract((3,3), o), AssertionError)

@bounded(P, ["pixell.enmap.submap","pixell.enmap.subgeo","pixell.enmap.subinds","pixell.enmap.skybox2pixbox"], "random boxes on random cylindrical maps, all rounding modes, both orientations")
def sky_boxes(b):
    from pixell import enmap, wcsutils
    rng = b.rng
    for it in range(b.N(300)):
        n = rng.choice([24,36,72]); res = 360/n
        w = geo.real_wcs("car", [rng.choice([n/2, n/2+0.5, 1.0]), rng.choice([7.0,7.5])], [rng.choice([-1,1])*res, rng.choice([-1,1])*5.0], [rng.choice([0.0, 90.0]), 0.0])
        m = enmap.ndmap(b.nrng.random((2,14,n)), w); raw = np.array(m)
        # box given by fractional pixel edges, then turned into sky coordinates
        py = sorted(rng.sample(range(0,14),2)); px0 = rng.randint(0,n-1); pw = rng.randint(1,n//2)
        fy, fx = rng.uniform(-0.45,0.45), rng.uniform(-0.45,0.45)
        pix = np.array([[py[0]-0.5+fy, px0-0.5+fx],[py[1]-0.5+fy, px0+pw-0.5+fx]])
        sgn = np.sign(w.wcs.cdelt[::-1])*np.pi/180
        def tosky(p): return np.array([((p[:,0]+1-w.wcs.crpix[1])*w.wcs.cdelt[1]), ((p[:,1]+1-w.wcs.crpix[0])*w.wcs.cdelt[0]+w.wcs.crval[0])]).T*np.pi/180
        fl = (rng.random()<0.5, rng.random()<0.5)
        q = pix.copy()
        if fl[0]: q[:,0] = q[::-1,0]
        if fl[1]: q[:,1] = q[::-1,1]
        mode = rng.choice([None,"round","floor","ceil","inclusive","exclusive"])
        b.case(str(w), n, pix.tolist(), fl, mode)
        # pixel i belongs to the rounded box [round(edge), ...): the conversion adds a tiny epsilon
        eps = 1e-4
        R = {None:(np.round,np.round),"round":(np.round,np.round),"floor":(np.floor,np.floor),"ceil":(np.ceil,np.ceil),"inclusive":(np.floor,np.ceil),"exclusive":(np.ceil,np.floor)}[mode]
        box = tosky(q)
        sub = m.submap(box, mode=mode)
        lo, hi = (R[0](q[0]+eps), R[1](q[1]+eps)) 
        idx = []
        for ax in range(2):
            a, e = int(lo[ax]), int(hi[ax])
            idx.append(np.arange(a, e, 1 if q[1,ax] > q[0,ax] else -1))
        want = np.zeros((2,len(idx[0]),len(idx[1])))
        ok = (idx[0]>=0)&(idx[0]<14)
        if len(idx[0]) and len(idx[1]): want[:,ok] = raw[:,idx[0][ok]][:,:,idx[1]%n]
        b.eq("submap pixels", sub, want)
        si = np.asarray(enmap.subinds(m.shape, w, box, mode=mode)); su = np.asarray(enmap.subinds(m.shape, w, box, mode=mode, cap=False))
        for ax in range(2):
            a, e, st = [int(v) for v in su[:,ax]]; full = list(range(a, e, st)) if st else []
            nn = m.shape[-2+ax]; b.check("indices inside the map", list(range(*[int(v) for v in si[:,ax]])) == [i for i in full if 0 <= i < nn], (si.tolist(), su.tolist()))
        nf = enmap.Geometry(m.shape, w).submap(box, mode=mode, noflip=True); k = (slice(None),)+tuple(slice(None,None,-1 if q[1,ax] < q[0,ax] else 1) for ax in range(2))
        if mode in (None,"round","floor","ceil"): b.check("geometry shape", tuple(enmap.Geometry(m.shape, w).submap(box, mode=mode).shape[-2:]) == sub.shape[-2:])
        if mode in (None,"round","floor","ceil") and 0 not in sub.shape: b.check("noflip keeps the order of the pixels", tuple(nf.shape[-2:]) == sub.shape[-2:] and geo.sky_eq(nf.wcs,(0,0),w,(min(np.round(q[:,0]+eps)) if mode in (None,"round") else min(R[0](q[:,0]+eps)), min(R[0](q[:,1]+eps)))), (nf.shape, sub.shape))
        if len(idx[0]) and len(idx[1]):
            b.check("submap position", geo.sky_eq(w, (idx[0][0],idx[1][0]), sub.wcs, (0,0)) and geo.sky_eq(w, (idx[0][-1],idx[1][-1]), sub.wcs, (len(idx[0])-1,len(idx[1])-1)))
            gs, gw = enmap.subgeo(m.shape, w, box, mode=mode)
            b.check("subgeo shape", tuple(gs[-2:]) == sub.shape[-2:], (gs, sub.shape))
            b.check("subgeo position", geo.sky_eq(gw, (0,0), sub.wcs, (0,0)) and geo.sky_eq(gw, (1,1), sub.wcs, (1,1)))
        # touching boxes give touching cut-outs (modes that round both ends alike)
        if mode in (None,"round","floor","ceil"):
            mid = np.array(q); cut = q[0,1] + (q[1,1]-q[0,1])*rng.random()
            q1, q2 = q.copy(), q.copy(); q1[1,1] = cut; q2[0,1] = cut
            if abs(q1[1,1]-q1[0,1]) > 1e-3 and abs(q2[1,1]-q2[0,1]) > 1e-3:
                s1, s2 = m.submap(tosky(q1), mode=mode), m.submap(tosky(q2), mode=mode)
                b.eq("touching boxes partition", np.concatenate([np.asarray(s1),np.asarray(s2)],-1), want)

@bounded(P, ['pixell.enmap.ndmap.extract', 'pixell.enmap.ndmap.extract_pixbox', 'pixell.enmap.ndmap.insert', 'pixell.enmap.ndmap.insert_at', 'pixell.enmap.ndmap.submap', 'pixell.enmap.ndmap.subinds', 'pixell.enmap.ndmap.padslice', 'pixell.enmap.ndmap.stamps'], "the map methods of these functions: every argument, and the defaults (one call each)", name="methods_stand_for_functions")
def methods_stand_for_functions(b):
    from pixell import enmap
    from vp.forward import forwarding
    w = geo.real_wcs("car", [3.0,2.0], [-10.0,10.0], [0.0,0.0]); m = enmap.ndmap(np.arange(20.0).reshape(4,5), w)
    forwarding(b, m, enmap.ndmap, enmap, ['extract', 'extract_pixbox', 'insert', 'insert_at', 'submap', 'subinds', 'padslice', 'stamps'])
    forwarding(b, enmap.Geometry((4,5), w), enmap.Geometry, enmap, [])
