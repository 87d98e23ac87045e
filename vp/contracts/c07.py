"""C07: pixel areas, shapes and map extents are those of the sky the pixels cover."""
import itertools
import numpy as np
from vp.core import *
from vp import geo, npshim
from vp.contracts.c04 import small_geo, skydist
from vp.contracts.c05 import full_stub
P = "C07"
SIN = "sin is strictly increasing on [-pi/2,pi/2]"

def wplain(c):
    v = [c.real("crpix0", sample=(-20,20)), c.real("crpix1", sample=(-20,20)), c.real("cd0", ne=0, sample=(-2,2)), c.real("cd1", ne=0, sample=(-2,2)), c.real("cv0", sample=(-180,180)), c.real("cv1", sample=(-30,30))]
    return geo.SWCS(v[0:2], v[2:4], v[4:6], ctype=("","")) if c.symbolic else geo.real_wcs("plain", v[0:2], v[2:4], v[4:6])
def near(c, a, b): return Eq(a, b) if c.symbolic else bool(abs(a-b) <= 1e-9*(1e-12+abs(b)))
def av(c, x): return ite(x >= 0, x, -x) if c.symbolic else abs(x)

@contract(P, ["pixell.enmap.area","pixell.enmap.area_intermediate","pixell.enmap.extent","pixell.enmap.extent_intermediate","pixell.enmap.pixsize","pixell.enmap.pixshape"], scope="all plain geometries and map sizes", samples=150)
def plain_area(c):
    E = c.mod("enmap"); w = wplain(c); d = c.pi/180
    ny, nx = c.int("ny", lo=1, sample=(1,9)), c.int("nx", lo=1, sample=(1,9)); cd = w.wcs.cdelt
    a = E.area((3,ny,nx), w); e, es = E.extent((ny,nx), w), E.extent((ny,nx), w, signed=True)
    c.check("area", near(c, a, ny*nx*av(c, cd[0]*cd[1])*d*d))
    c.check("extent", And(near(c, es[0], ny*cd[1]*d), near(c, es[1], nx*cd[0]*d), near(c, e[0], av(c, ny*cd[1]*d)), near(c, e[1], av(c, nx*cd[0]*d))))
    c.check("pixel size", near(c, E.pixsize((ny,nx), w)*ny*nx, a))
    ps = E.pixshape((2,ny,nx), w, signed=True)
    c.check("pixel shape", And(near(c, ps[0], cd[1]*d), near(c, ps[1], cd[0]*d)))

def edges(c, w, n, which=None):
    """declinations of the row edges, cut at the poles"""
    d = c.pi/180; out = []
    for i in which or range(n+1):
        v = (w.wcs.crval[1]+w.wcs.cdelt[1]*(i+0.5-w.wcs.crpix[1]))*d
        out.append(ite(v < -c.pi/2, -c.pi/2, ite(v > c.pi/2, c.pi/2, v)) if c.symbolic else min(max(v,-c.pi/2),c.pi/2))
    return out
def ssin(c, v): return sym.ufun("sin", v) if c.symbolic else math.sin(v)
def wcar(c, ny):
    """a CAR geometry whose row centres all lie on the sky"""
    cp1 = c.real("crpix1", sample=(-3,5)); sy = c.choose("sy",[1,-1]); p = c.real("p", lo=0.01, hi=30, sample=(1,10)); cd0 = c.real("cd0", ne=0, sample=(-2,2))
    v = [[c.real("crpix0", sample=(-20,20)), cp1], [cd0, sy*p], [c.real("cv0", sample=(-180,180)), 0.0]]
    for i in (0, ny-1):
        b = sy*p*(i+1-cp1); c.assume(b > -90, b < 90)
    w = geo.SWCS(*v) if c.symbolic else geo.real_wcs("car", *v)
    w.sy = sy; return w

for _ny in (1,2,3):
    def _cyl(c, ny=_ny):
        """CAR rows: the area of a pixel is |dRA|*|sin(dec2)-sin(dec1)| between its edges; areas, shapes, extents and totals agree"""
        E = c.mod("enmap"); w = wcar(c, ny); d = c.pi/180
        nx = c.int("nx", lo=1, sample=(1,9)); e = edges(c, w, ny); s = [ssin(c, v) for v in e]; up = w.wcs.cdelt[1] > 0
        if c.symbolic:
            for a, b in itertools.combinations(range(ny+1), 2): c.assume(sym.Implies(e[a] < e[b], s[a] < s[b]), sym.Implies(e[b] < e[a], s[b] < s[a]))
            for a in range(ny):
                (c.step("order", e[a] < e[a+1]), c.step("order of sines", s[a] < s[a+1])) if w.sy > 0 else (c.step("order", e[a] > e[a+1]), c.step("order of sines", s[a] > s[a+1]))
        dra = w.wcs.cdelt[0]*d
        r = E.pixshapes_cyl((ny,nx), w, signed=True); ru = E.pixshapes_cyl((ny,nx), w)
        for i in range(ny):
            c.check("height", near(c, r[0,i], e[i+1]-e[i])); c.check("signed area of the row's pixels", near(c, r[0,i]*r[1,i], dra*(s[i+1]-s[i])))
            c.check("width has the sign of the column step", And((r[1,i] > 0) == (dra > 0) if not c.symbolic else Eq(r[1,i] > 0, dra > 0)))
            c.check("unsigned", And(near(c, ru[0,i], av(c, r[0,i])), near(c, ru[1,i], av(c, r[1,i]))))
        for i in range(ny): c.step("area of the row's pixels", near(c, ru[0,i]*ru[1,i], av(c, dra)*(s[i+1]-s[i])*w.sy))
        tot = sum([ru[0,i]*ru[1,i] for i in range(ny)])*nx
        c.check("the pixel areas add up to the area between the outer edges", near(c, tot, av(c, dra)*nx*(s[ny]-s[0])*w.sy))
    contract(P, ["pixell.enmap.pixshapes_cyl","pixell.enmap.area_cyl","pixell.enmap.extent_cyl","pixell.enmap.area","pixell.enmap.extent","pixell.enmap.pixsize"], scope="all CAR geometries with row centres on the sky, %d rows, any number of columns" % _ny, samples=150, trusted=[geo.CARLIN, SIN], name="cyl_rows_%d" % _ny, wall=200)(_cyl)

@contract(P, ["pixell.enmap.area_cyl","pixell.enmap.extent_cyl","pixell.enmap.area","pixell.enmap.extent","pixell.enmap.pixsize","pixell.enmap.pixshape"], scope="all CAR geometries with row centres on the sky, any number of rows and columns", samples=200, trusted=[geo.CARLIN, SIN], wall=200)
def cyl_total(c):
    E = c.mod("enmap"); ny, nx = c.int("ny", lo=1, sample=(1,9)), c.int("nx", lo=1, sample=(1,9)); w = wcar(c, ny); d = c.pi/180
    e = edges(c, w, ny, (0,ny)); s = [ssin(c, v) for v in e]; dra = w.wcs.cdelt[0]*d
    if c.symbolic: c.assume(sym.Implies(e[0] < e[1], s[0] < s[1]), sym.Implies(e[1] < e[0], s[1] < s[0]))
    c.step("order", (e[1]-e[0])*w.sy > 0); c.step("order of sines", (s[1]-s[0])*w.sy > 0)
    a = E.area((2,ny,nx), w); c.step("area", near(c, a, av(c, dra)*nx*(s[1]-s[0])*w.sy))
    ex = E.extent((ny,nx), w); es = E.extent((ny,nx), w, signed=True)
    c.step("height of the map", near(c, ex[0], (e[1]-e[0])*w.sy)); c.step("signed height", near(c, es[0], e[1]-e[0]))
    c.step("width of the map", near(c, es[1]*(e[1]-e[0]), dra*nx*(s[1]-s[0]))); c.step("unsigned width", near(c, av(c, es[1]), ex[1]))
    c.step("width of the map", near(c, ex[1]*(e[1]-e[0]), av(c, dra)*nx*(s[1]-s[0])))
    c.check("extent product is the area", near(c, ex[0]*ex[1], a))
    c.check("signed width", Eq(es[1] > 0, dra > 0) if c.symbolic else (es[1] > 0) == (dra > 0))
    c.check("average pixel", near(c, E.pixsize((ny,nx), w)*ny*nx, a))
    ps = E.pixshape((ny,nx), w); c.check("average pixel shape", And(near(c, ps[0]*ny, ex[0]), near(c, ps[1]*nx, ex[1])))

@contract(P, ["pixell.enmap.pixsizemap","pixell.enmap.pixshapemap"], scope="2x3 maps, all CAR geometries", samples=60, trusted=[geo.CARLIN])
def maps_cyl(c):
    E = c.mod("enmap"); w = wcar(c, 2); sh = (2,3)
    r = E.pixshapes_cyl(sh, w, signed=True)
    m = E.pixsizemap(sh, w); m1 = E.pixsizemap(sh, w, broadcastable=True); p = E.pixshapemap(sh, w, signed=True)
    c.check("shapes", And(tuple(m.shape) == sh, tuple(m1.shape) == (2,1), tuple(p.shape) == (2,)+sh))
    for i in range(2):
        c.check("short", near(c, m1[i,0], av(c, r[0,i]*r[1,i])))
        for j in range(3): c.check("pixel", And(near(c, m[i,j], av(c, r[0,i]*r[1,i])), near(c, p[0,i,j], r[0,i]), near(c, p[1,i,j], r[1,i])))

# ---------------------------------------------------------------- bounded
def sphere_area(v):
    """area of the spherical polygon with vertices v[n,3] (small, convex)"""
    tot = 0
    for i in range(1, len(v)-1):
        a, b, c = v[0], v[i], v[i+1]
        tot += 2*np.arctan2(np.dot(a, np.cross(b,c)), 1+np.dot(a,b)+np.dot(b,c)+np.dot(c,a))
    return abs(tot)
def true_areas(w, ny, nx, m=4):
    """pixel areas from a fine grid of spherical quadrilaterals"""
    yy, xx = np.mgrid[0:ny*m+1,0:nx*m+1]/m-0.5
    ra, dec = np.array(w.wcs_pix2world(xx.ravel(), yy.ravel(), 0)).reshape((2,)+yy.shape)*np.pi/180
    v = np.array([np.cos(dec)*np.cos(ra), np.cos(dec)*np.sin(ra), np.sin(dec)])
    out = np.zeros((ny,nx))
    for i in range(ny*m):
        for j in range(nx*m): out[i//m,j//m] += sphere_area(v[:,[i,i,i+1,i+1],[j,j+1,j+1,j]].T)
    return out

@bounded(P, ["pixell.enmap.pixsizemap","pixell.enmap.pixsizemap_contour","pixell.enmap.pixshapemap","pixell.enmap.area","pixell.enmap.area_contour","pixell.enmap.extent","pixell.enmap.extent_subgrid","pixell.enmap.pixshapebounds","pixell.enmap.ndmap","pixell.enmap.modrmap","pixell.enmap.center"], "random patches in 8 projections against spherical polygons; full-sky maps against 4 pi")
def areas(b):
    from pixell import enmap, utils, wcsutils
    rng = b.rng; d = utils.degree
    for it in range(b.N(120)):
        proj, (ny,nx), w = small_geo(rng)
        if proj != "plain":
            _, (ny,nx) = 0, (rng.randint(1,6), rng.randint(1,6))
            yy, xx = np.mgrid[0:ny+1,0:nx+1]-0.5
            pos = np.array(w.wcs_pix2world(xx.ravel(), yy.ravel(), 0))
            if not np.all(np.isfinite(pos)) or np.max(np.abs(pos[1])) > 75: continue
        shape = (ny,nx); cd = np.abs(w.wcs.cdelt)*d
        b.case(proj, shape, str(w))
        truth = np.full(shape, cd[0]*cd[1]) if proj == "plain" else true_areas(w, ny, nx)
        m = enmap.zeros((2,)+shape, w)
        ps = enmap.pixsizemap(shape, w); rt = 2e-5 if proj in ("plain","car") else 2e-3 if proj in ("cea","mer") else 8e-3
        b.close("pixel areas", ps, truth, rtol=rt); b.check("geometry of the result", ps.shape == shape and wcsutils.equal(ps.wcs, w))
        b.close("method", m.pixsizemap(), ps); b.close("block size", enmap.pixsizemap(shape, w, bsize=rng.randint(1,3)), ps); b.close("general method agrees", enmap.pixsizemap(shape, w, separable=False) if proj != "plain" else ps, ps, rtol=2e-3)
        bc = enmap.pixsizemap(shape, w, broadcastable=True); b.close("broadcastable", np.broadcast_to(bc, shape), ps)
        if proj == "cea" or proj == "zea": b.close("equal-area", ps, np.full(shape, cd[0]*cd[1]), rtol=max(rt,3e-3))
        a = enmap.area((3,)+shape, w); b.close("area", a, truth.sum(), rtol=max(rt,2e-4)); b.close("area method", m.area(), a); b.close("average pixel area", enmap.pixsize(shape, w)*ny*nx, a); b.close("average pixel area", m.pixsize(), a/(ny*nx))
        e, es = enmap.extent(shape, w), enmap.extent(shape, w, signed=True)
        b.close("extent product", e[0]*e[1], a, rtol=1e-7); b.close("signed extent", es, e*np.sign(w.wcs.cdelt[::-1])); b.close("extent method", m.extent(), e)
        b.close("pixshape", m.pixshape()*[ny,nx], e); b.close("pixshape signed", enmap.pixshape(shape, w, signed=True)*[ny,nx], es)
        if proj != "plain":
            # side lengths along the central column and row
            c2 = [w.wcs_pix2world((nx-1)/2, -0.5, 0), w.wcs_pix2world((nx-1)/2, ny-0.5, 0)]; h = skydist(*[np.array([float(v[1]),float(v[0])])*d for v in c2])
            b.close("height", e[0], h, rtol=0.02)
            c2 = [w.wcs_pix2world(-0.5, (ny-1)/2, 0), w.wcs_pix2world(nx-0.5, (ny-1)/2, 0)]; wd = skydist(*[np.array([float(v[1]),float(v[0])])*d for v in c2]); b.close("width", e[1], wd, rtol=0.03)
            for mth in ("subgrid",) + (("cyl",) if proj in ("car","cea","mer") else ()): b.close("extent by "+mth, enmap.extent(shape, w, method=mth), e, rtol=5e-3)
            for mth in ("contour",) + (("cyl",) if proj in ("car","cea","mer") else ()): b.close("area by "+mth, enmap.area(shape, w, method=mth), a, rtol=max(rt,2e-3))
        # shapes of the single pixels
        if rng.random() < 0.3:
            rs = rng.uniform(0.02,0.5)*utils.degree; zs, zw = enmap.geometry(pos=(rng.uniform(-0.8,0.8), rng.choice([np.pi,-np.pi,rng.uniform(-3.1,3.1)])+rng.uniform(-3,3)*rs), shape=(rng.randint(1,7),rng.randint(1,7)), res=rs, proj=rng.choice(["tan","zea","arc","sin"])); b.case("upright zenithal", zs, str(zw))
            b.check("pixel shapes in an upright map near its centre", np.all(np.abs(np.asarray(enmap.pixshapemap(zs, zw))/rs-1) < 0.15), np.asarray(enmap.pixshapemap(zs, zw))/rs)
        psh = enmap.pixshapemap(shape, w); pss = enmap.pixshapemap(shape, w, signed=True)
        b.close("unsigned shape", psh, np.abs(pss)); b.check("shape map", psh.shape == (2,)+shape and wcsutils.equal(psh.wcs, w)); b.close("method", m.pixshapemap(), psh)
        if proj in ("plain","car","cea","mer"):
            b.close("pixel shapes multiply to the area", psh[0]*psh[1], ps, rtol=1e-6); b.check("signs", np.all(np.sign(pss[0]) == np.sign(w.wcs.cdelt[1])) and np.all(np.sign(pss[1]) == np.sign(w.wcs.cdelt[0])))
            if proj != "plain": b.close("general pixel shapes", enmap.pixshapemap(shape, w, separable=False), psh, rtol=1e-2); b.close("general pixel shapes signed", enmap.pixshapemap(shape, w, separable=False, signed=True, bsize=rng.randint(1,3)), pss, rtol=1e-2)
        bd = enmap.pixshapebounds(shape, w)
        b.check("bounds shape", np.shape(bd) == (2,2), bd); b.close("bounds", bd, np.array([np.min(psh,(1,2)), np.max(psh,(1,2))]))
        b.close("bounds method", m.pixshapebounds(), bd) if hasattr(m, "pixshapebounds") else None
        # distances from the centre
        cen = enmap.center(shape, w); b.close("centre", enmap.sky2pix(shape, w, cen), (np.array(shape)-1)/2, atol=1e-6)
        r = enmap.modrmap(shape, w); pos = enmap.posmap(shape, w); ref = cen if rng.random() < 0.5 else np.array([cen[0]+0.01,cen[1]-0.02])
        r2 = m.modrmap(ref=ref)
        dist = lambda q: np.sqrt(np.sum((pos-np.array(q)[:,None,None])**2,0)) if proj == "plain" else 2*np.arcsin(skydist(pos, np.broadcast_to(np.array(q)[:,None,None], pos.shape))/2)
        b.close("distance from the centre", r, dist(cen), atol=2e-8); b.close("distance from a point", r2, dist(ref), atol=2e-8)
    for it in range(b.N(30)):
        var = rng.choice(["cc","fejer1"]); nyh = rng.randint(3,40); nx = rng.randint(3,60); dims = rng.choice([(),(2,)])
        s, w = enmap.fullsky_geometry(shape=(nyh+(var=="cc"),nx), variant=var, dims=dims)
        if rng.random() < 0.5: s, w = enmap.slice_geometry(s, w, (slice(None,None,rng.choice([1,-1])), slice(None,None,rng.choice([1,-1]))))
        b.case("full sky", var, s, str(w))
        b.close("whole sky", enmap.area(s, w), 4*np.pi); b.close("sum of pixels", np.sum(enmap.pixsizemap(s, w)), 4*np.pi); b.check("positive", np.all(enmap.pixsizemap(s,w) > 0))
        b.close("extent of the whole sky", np.prod(enmap.extent(s, w)), 4*np.pi)
        i1, i2 = sorted(rng.sample(range(s[-2]+1),2)); sub = enmap.slice_geometry(s, w, (slice(i1,i2),slice(None)))
        b.close("band", enmap.area(*sub), np.sum(enmap.pixsizemap(s,w)[i1:i2])); b.close("band pixels", enmap.pixsizemap(*sub), enmap.pixsizemap(s,w)[i1:i2])

@bounded(P, ['pixell.enmap.ndmap.lbin', 'pixell.enmap.ndmap.rbin', 'pixell.enmap.ndmap.area', 'pixell.enmap.ndmap.pixsize', 'pixell.enmap.ndmap.pixshape', 'pixell.enmap.ndmap.pixsizemap', 'pixell.enmap.ndmap.pixshapemap', 'pixell.enmap.ndmap.lpixsize', 'pixell.enmap.ndmap.lpixshape', 'pixell.enmap.ndmap.extent', 'pixell.enmap.ndmap.npix'], "the map methods of these functions: every argument, and the defaults (one call each)", name="methods_stand_for_functions")
def methods_stand_for_functions(b):
    from pixell import enmap
    from vp.forward import forwarding
    w = geo.real_wcs("car", [3.0,2.0], [-10.0,10.0], [0.0,0.0]); m = enmap.ndmap(np.arange(20.0).reshape(4,5), w)
    forwarding(b, m, enmap.ndmap, enmap, ['lbin', 'rbin', 'area', 'pixsize', 'pixshape', 'pixsizemap', 'pixshapemap', 'lpixsize', 'lpixshape', 'extent', 'npix'])
    forwarding(b, enmap.Geometry((4,5), w), enmap.Geometry, enmap, [])
