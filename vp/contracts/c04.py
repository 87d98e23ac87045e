"""C04: sky and pixel coordinates are inverse to each other and mean the same everywhere."""
import itertools
import numpy as np
from vp.core import *
from vp import geo, npshim, load as L
from vp.contracts.c01 import rand_wcs, PROJ
P = "C04"

def car(c, kind):
    """an arbitrary plain or CAR geometry.  N pixels around the sky, either direction"""
    crpix = [c.real("crpix0", sample=(-20,20)), c.real("crpix1", sample=(-20,20))]
    N = c.real("N", sample=(8,40)); c.assume(N > 2)
    sx, sy = c.choose("sx",[1,-1]), c.choose("sy",[1,-1])
    M = c.real("M", sample=(60,200)); c.assume(M > 2)
    cd = [sx*360/N, sy*360/M]
    cv = [c.real("crval0", sample=(-180,180)), 0.0 if kind == "car" else c.real("crval1")]
    if c.symbolic: w = geo.SWCS(crpix, cd, cv, ctype=("RA---CAR","DEC--CAR") if kind == "car" else ("",""))
    else: w = geo.real_wcs("car" if kind == "car" else "plain", crpix, cd, cv)
    return w, N, M
def deg(c): return c.pi/180

def turns_eq(c, a, b, period):
    """a = b + whole periods"""
    if not c.symbolic:
        d = (a-b)/period; return abs(d-round(d)) < 1e-7
    d = (a-b)/period
    return SBool(sym.z3.IsInt(sym.zr(d)))

for _kind in ("plain","car"):
    for _corner in (False, True):
        for _safe in (0, 1, 2):
            def _rt(c, kind=_kind, corner=_corner, safe=_safe):
                """pix -> sky -> pix is the identity for pixels within half a turn of the map centre"""
                E = c.mod("enmap")
                w, N, M = car(c, kind)
                shape = (c.int("ny", lo=1, sample=(1,8)), c.int("nx", lo=1, sample=(1,8)))
                off = 0.5 if corner else 0.0
                if kind == "car":
                    t, u = c.real("t", lo=-0.499, hi=0.499), c.real("u", lo=-0.1, hi=0.1)
                    x, y = shape[1]/2+off + t*N, shape[0]/2+off + u*M
                    if not c.symbolic: c.assume(abs((y+1-off-w.wcs.crpix[1])*w.wcs.cdelt[1]) < 89, abs((x+1-off-w.wcs.crpix[0])*w.wcs.cdelt[0]) < 179)
                else: x, y = c.real("x"), c.real("y")
                sky = E.pix2sky(shape, w, c.arr([y,x]), safe=False, corner=corner)
                # the position itself, by the definition of the projection
                lx, ly = geo.inter(w, x-off, y-off)
                c.check("declination", Eq(sky[0], (ly+w.wcs.crval[1])*deg(c)))
                if kind == "plain":
                    c.check("longitude", Eq(sky[1], (lx+w.wcs.crval[0])*deg(c)))
                    pix = E.sky2pix(shape, w, sky, safe=safe, corner=corner)
                    c.check("y", Eq(pix[0], y)); c.check("x", Eq(pix[1], x)); return
                pix = E.sky2pix(shape, w, sky, safe=safe, corner=corner)
                c.check("y", Eq(pix[0], y))
                if safe: c.check("x", Eq(pix[1], x))
                elif c.symbolic: c.check("x up to whole turns", Or(*[Eq(pix[1], x + s*N*sum(geo.TURNS[-2:])) for s in (1,-1)]))
                else: c.check("x up to whole turns", turns_eq(c, pix[1], x, N))
            contract(P, ["pixell.enmap.pix2sky","pixell.enmap.sky2pix","pixell.utils.rewind"], scope="all plain/CAR geometries and single positions", samples=200, trusted=[geo.CARLIN],
                name="roundtrip_%s%s_safe%d" % (_kind, "_corner" if _corner else "", _safe))(_rt)

def pts(c, N, k):
    """k points on a line through pixel space, less than half a turn between neighbours"""
    x0, y0 = c.real("x0", sample=(-5,5)), c.real("y0", sample=(-5,5))
    t, u = c.real("t", lo=-0.49, hi=0.49), c.real("u", lo=-0.05, hi=0.05)
    return [x0+i*t*N for i in range(k)], [y0+i*u for i in range(k)]

# contract of utils.unwind (1-D): every value moves by whole periods, neighbours end up at most half a
# period apart, and the reference element lies within half a period of ref
def unwind_contract(c, a, period, ref, refmode):
    n = a.shape[-1]
    us = []
    def one(v):
        M, rest = sym.ratnorm(sym.z3.simplify(sym.zr(v)), sym.z3.simplify(sym.zr(period)))    # visible whole periods are absorbed
        u = SInt(sym.cur().fresh_int("uw")); us.append(u)
        return SReal(rest) + period*u
    out = npshim.emap(one, a)
    for j in range(0, len(us), n):
        m = us[j+(0 if refmode == "left" else n//2)]
        for d in [us[j+i+1]-us[j+i] for i in range(n-1)] + [m]:      # valid facts about integer multiples of a positive period
            c.assume(Implies(Eq(d,0), Eq(d*period,0)), Implies(d >= 1, d*period >= period), Implies(d <= -1, d*period <= -period), Implies(d >= 2, d*period >= 2*period), Implies(d <= -2, d*period <= -2*period))
    for row in out.reshape(-1, n):
        for i in range(n-1): c.assume(row[i+1]-row[i] <= period/2, row[i+1]-row[i] >= -period/2)
        r = row[0 if refmode == "left" else n//2]
        c.assume(r >= ref-period/2, r <= ref+period/2)
    return out
def unwind_stub(c):
    def unwind(a, period=2*c.pi, axes=[-1], ref=0, refmode="left", mask_nan=False):
        if axes != [-1] or mask_nan: raise Unsupported("unwind variant")
        a = npshim.asarr(a)
        return a if a.ndim == 0 else unwind_contract(c, a, period, ref, refmode)
    return unwind
for _n, _rm in itertools.product((1,2,3,4,5), ("left","middle")):
    def _unw(c, n=_n, rm=_rm):
        U = c.mod("utils")
        per = c.real("period", sample=(0.5,8)); c.assume(per > 0)
        ref = c.real("ref"); a = [c.real("a%d" % i, sample=(-9,9)) for i in range(n)]
        src = c.arr(a)
        r = U.unwind(src, period=per, ref=ref, refmode=rm)
        tol = 0 if c.symbolic else 1e-9
        for i in range(n):
            c.check("moves by whole periods", whole((r[i]-a[i])/per))
            if i: c.check("no jumps", And(r[i]-r[i-1] <= per/2+tol, r[i]-r[i-1] >= -per/2-tol))
        m = 0 if rm == "left" else n//2
        c.check("reference within half a period of ref", And(r[m] >= ref-per/2-tol, r[m] <= ref+per/2+tol))
        c.check_all("argument unchanged", [Eq(src[i], a[i]) for i in range(n)])
    contract(P, ["pixell.utils.unwind","pixell.utils.rewind"], scope="all values, periods and references, %d elements" % _n, samples=200, name="unwind_%s_%d" % (_rm, _n), wall=200)(_unw)

for _k in (1,2,3,4):
    def _safe(c, k=_k):
        """safe pix2sky: longitudes along a line are continuous, and the right ones up to one common number of turns"""
        E = c.mod("enmap")
        w, N, M = car(c, "car"); shape = (c.int("ny", lo=1), c.int("nx", lo=1))
        x, y = pts(c, N, k); t = c.real("t")
        mulbound(c, t, -0.49, 0.49, c.pi)
        if not c.symbolic: c.assume(all(abs((v+1-w.wcs.crpix[1])*w.wcs.cdelt[1]) < 89 for v in y), all(abs((v+1-w.wcs.crpix[0])*w.wcs.cdelt[0]) < 179 for v in x))
        with stub(c, E.utils, unwind=unwind_stub(c)): sky = E.pix2sky(shape, w, c.arr([y,x]))
        dg = deg(c)
        for i in range(k):
            lx, ly = geo.inter(w, x[i], y[i])
            c.check("declination", Eq(sky[0][i], (ly+w.wcs.crval[1])*dg))
            if i: c.check("continuous", Eq(sky[1][i]-sky[1][0], (x[i]-x[0])*w.wcs.cdelt[0]*dg))
        mid = k//2
        if c.symbolic: c.check("reference point between -pi and pi", And(sky[1][mid] >= -c.pi, sky[1][mid] <= c.pi))
        lx, ly = geo.inter(w, x[mid], y[mid])
        c.check("longitude", whole((sky[1][mid]-(lx+w.wcs.crval[0])*dg)/(2*c.pi)))
    contract(P, ["pixell.enmap.pix2sky","pixell.utils.unwind","pixell.utils.rewind"], scope="all CAR geometries, %d points on any line less than half a turn apart" % _k, samples=200, trusted=[geo.CARLIN], name="pix2sky_safe_%d" % _k)(_safe)

def contains_fixed(c, kind):
    """a position is contained exactly if its pixel coordinates are within [0,n)"""
    E = c.mod("enmap")
    w, N, M = car(c, kind); ny, nx = c.int("ny", lo=1, sample=(1,9)), c.int("nx", lo=1, sample=(1,9))
    if kind == "car": c.assume(nx <= N, ny*4 <= M)
    y, x = c.real("y", sample=(-3,10)), c.real("x", sample=(-3,10))
    r = E.contains((ny,nx), w, c.arr([y,x]), unit="pix")
    inside = And(x >= 0, x < nx, y >= 0, y < ny)
    c.check("pixel units", Eq(r, inside) if not issym(r) else And(Implies(r, inside), Implies(inside, r)))
    if kind == "car": c.assume(x > nx/2-N/2+0.01, x < nx/2+N/2-0.01, y > ny/2-M/8, y < ny/2+M/8)
    if not c.symbolic and kind == "car": c.assume(abs((y+1-w.wcs.crpix[1])*w.wcs.cdelt[1]) < 89, abs((x+1-w.wcs.crpix[0])*w.wcs.cdelt[0]) < 179)
    if not c.symbolic: c.assume(min(abs(x-round(x)), abs(y-round(y))) > 1e-6)
    sky = E.pix2sky((ny,nx), w, c.arr([y,x]))
    r2 = E.contains((ny,nx), w, sky)
    c.check("sky units", bool(r2) == bool(inside) if not c.symbolic else (And(Implies(r2, inside), Implies(inside, r2)) if issym(r2) else (inside if r2 else Not(inside))))
for _kind in ("plain","car"):
    contract(P, ["pixell.enmap.contains","pixell.enmap.sky2pix"], scope="all plain/CAR geometries not wider than the sky", samples=300, trusted=[geo.CARLIN], name="contains_"+_kind)(lambda c, k=_kind: contains_fixed(c, k))

for _corner in (True, False):
    def _corners(c, corner=_corner):
        """corners: both on the same side of the cut; extent across is the full width"""
        E = c.mod("enmap")
        w, N, M = car(c, "car"); ny, nx = c.int("ny", lo=1, sample=(1,9)), c.int("nx", lo=1, sample=(1,9))
        c.assume(nx <= N, ny*2 <= M)
        if not c.symbolic: c.assume(all(abs((v+1-w.wcs.crpix[1])*w.wcs.cdelt[1]) < 89 for v in (-0.5,ny-0.5)), all(abs((v+1-w.wcs.crpix[0])*w.wcs.cdelt[0]) < 179 for v in (-0.5,nx-0.5)))
        o = 0.5 if corner else 0.0
        for v in (nx, 1): ratiobound(c, v, N); mulbound(c, v/N, 0, 1, c.pi)
        for v in (-o, ny-1+o):
            d = geo.inter(w, 0, v)[1]; c.assume(d >= -90, d <= 90)
            mulbound(c, d, -90, 90, c.pi)
        for f in (E.corners, E.box):
            with stub(c, E.utils, unwind=unwind_stub(c)): b = f((3,ny,nx), w, corner=corner)
            dg = deg(c)
            a0, a1 = geo.inter(w, -o, -o), geo.inter(w, nx-1+o, ny-1+o)
            c.check("declinations", And(Eq(b[0][0], (a0[1]+w.wcs.crval[1])*dg), Eq(b[1][0], (a1[1]+w.wcs.crval[1])*dg)))
            c.check("longitude extent", Eq(b[1][1]-b[0][1], (a1[0]-a0[0])*dg))
            if not c.symbolic: c.check("longitude", turns_eq(c, b[0][1], (a0[0]+w.wcs.crval[0])*dg, 2*c.pi))
    contract(P, ["pixell.enmap.corners","pixell.enmap.box","pixell.utils.unwind"], scope="all CAR geometries not wider than the sky", samples=200, trusted=[geo.CARLIN], name="corners%s" % ("" if _corner else "_centers"), wall=200)(_corners)

def _boxes(c, k):
    E = c.mod("enmap")
    w, N, M = car(c, "plain"); shape = (c.int("ny", lo=1), c.int("nx", lo=1))
    pb = [[c.real("y0"), c.real("x0")],[c.real("y1"), c.real("x1")]]
    sb = E.pixbox2skybox(shape, w, c.arr(pb)); dg = deg(c)
    for i in range(2):
        lx, ly = geo.inter(w, pb[i][1], pb[i][0])
        c.check("sky box", And(Eq(sb[i][0], (ly+w.wcs.crval[1])*dg), Eq(sb[i][1], (lx+w.wcs.crval[0])*dg)))
    back = E.skybox2pixbox(shape, w, sb, include_direction=True)
    for i in range(2):
        for j in range(2): c.check("pixel box", Eq(back[i][j], pb[i][j]))
    for j in range(2): c.check("direction", Eq(back[2][j], ite(pb[1][j] > pb[0][j], 1, ite(pb[1][j] < pb[0][j], -1, 0))) if c.symbolic or abs(pb[1][j]-pb[0][j]) > 1e-6 else True)
contract(P, ["pixell.enmap.pixbox2skybox","pixell.enmap.skybox2pixbox"], scope="all plain geometries and boxes", samples=200, trusted=[geo.CARLIN], name="sky_and_pixel_boxes")(lambda c: _boxes(c, 0))

for _ny, _nx in ((1,1),(2,3),(3,2)):
    def _pos(c, ny=_ny, nx=_nx):
        """position maps: entry (y,x) is the position of pixel (y,x)"""
        E = c.mod("enmap")
        w, N, M = car(c, "car"); c.assume(N >= 4, M >= 4*ny)
        if not c.symbolic: c.assume(abs((0.5-w.wcs.crpix[1])*w.wcs.cdelt[1]) < 60, abs((ny+0.5-w.wcs.crpix[1])*w.wcs.cdelt[1]) < 60, abs((nx+1-w.wcs.crpix[0])*w.wcs.cdelt[0]) < 179, abs((0.5-w.wcs.crpix[0])*w.wcs.cdelt[0]) < 179)
        ratiobound(c, 4, N); mulbound(c, 4/N, 0, 1, c.pi); dg = deg(c)
        corner = c.choose("corner", [False, True]); o = 0.5 if corner else 0.0
        with stub(c, E.utils, unwind=unwind_stub(c)):
            with stub(c, E, zeros=lambda shape, wcs=None, dtype=None: npshim.full(shape, 0, float)):
                pm = E.posmap((2,ny,nx), w, corner=corner)
            dec, ra = E.posaxes((2,ny,nx), w, corner=corner)
        c.check("shape", tuple(pm.shape) == (2,ny,nx))
        for y in range(ny):
            for x in range(nx):
                lx, ly = geo.inter(w, x-o, y-o)
                c.check("declination", And(Eq(pm[0][y][x], (ly+w.wcs.crval[1])*dg), Eq(dec[y], (ly+w.wcs.crval[1])*dg)))
                c.check("longitude", And(whole((pm[1][y][x]-(lx+w.wcs.crval[0])*dg)/(2*c.pi)), whole((ra[x]-(lx+w.wcs.crval[0])*dg)/(2*c.pi))))
                c.check("no jumps", And(Eq(pm[1][y][x]-pm[1][0][0], x*w.wcs.cdelt[0]*dg), Eq(ra[x]-ra[0], x*w.wcs.cdelt[0]*dg)))
    contract(P, ["pixell.enmap.posmap","pixell.enmap.posaxes","pixell.enmap.pix2sky"], scope="all CAR geometries, maps of %dx%d pixels" % (_ny,_nx), samples=60, trusted=[geo.CARLIN], name="posmap_%dx%d" % (_ny,_nx), wall=200)(_pos)

# ---------------------------------------------------------------- bounded
def skydist(a, b):
    """distance on the sphere of (dec,ra) arrays"""
    va, vb = [np.array([np.cos(p[0])*np.cos(p[1]), np.cos(p[0])*np.sin(p[1]), np.sin(p[0])]) for p in (a,b)]
    return np.sqrt(np.sum((va-vb)**2,0))

def small_geo(rng, proj=None):
    """a patch well inside the projection's domain"""
    proj = proj or rng.choice(["car","cea","mer","tan","zea","arc","sin","plain"])
    res = rng.uniform(0.2,2); n = (rng.randint(1,9), rng.randint(1,12))
    cv = [rng.uniform(-180,180), rng.uniform(-60,60)]
    cd = [rng.choice([-1,1])*res, rng.choice([-1,1])*res*rng.uniform(0.5,1.5)]
    if proj in ("car","cea","mer"): cp = [rng.uniform(-30,40)/max(res,0.5), rng.uniform(-20,30)/max(res,0.5)]
    else: cp = [rng.uniform(-5,15), rng.uniform(-5,15)]
    return proj, n, geo.real_wcs(proj, cp, cd, cv)

@bounded(P, ["pixell.enmap.pix2sky","pixell.enmap.sky2pix","pixell.enmap.posmap","pixell.enmap.posaxes","pixell.enmap.pixmap","pixell.enmap.contains","pixell.enmap.Geometry","pixell.enmap.ndmap.sky2pix","pixell.enmap.ndmap.pix2sky","pixell.enmap.ndmap.posmap"], "random patches in 8 projections, arrays of 1..30 positions of several shapes, compared with wcslib called directly")
def positions(b):
    from pixell import enmap, wcsutils, utils
    rng = b.rng
    b.close("degree", utils.degree, np.pi/180, rtol=1e-15); b.close("arcmin", utils.arcmin, np.pi/180/60, rtol=1e-15); b.close("arcsec", utils.arcsec, np.pi/180/3600, rtol=1e-15)
    for it in range(b.N(350)):
        proj, shape, w = small_geo(rng); plain = proj == "plain"
        corner = rng.choice([False,True]); safe = rng.choice([True,False,1,2])
        psh = rng.choice([(),(1,),(5,),(2,3),(2,1,4)])
        pre = rng.choice([(),(3,)])
        pix = np.stack([b.nrng.uniform(-1, shape[0]+1, psh), b.nrng.uniform(-1, shape[1]+1, psh)])
        b.case(proj, shape, str(w), corner, safe, psh)
        pix0 = pix.copy()
        sky = enmap.pix2sky(pre+shape, w, pix, corner=corner, safe=bool(safe))
        b.eq("argument unchanged", pix, pix0); b.check("shape", sky.shape == pix.shape)
        o = 0.5 if corner else 0
        ref = np.array(w.wcs_pix2world(pix[1].ravel()-o, pix[0].ravel()-o, 0))[::-1].reshape(pix.shape)*np.pi/180
        if plain: b.close("plain position", sky, ref)
        else:
            b.check("position", np.all(skydist(sky, ref) < 1e-9), (sky, ref)); b.close("declination", sky[0], ref[0])
            if safe and len(psh) == 1: b.check("continuous", np.all(np.abs(np.diff(sky[1],axis=-1)) <= np.pi+1e-9))
        back = enmap.sky2pix(pre+shape, w, sky, corner=corner, safe=safe)
        good = np.isfinite(back)
        N = abs(360/w.wcs.cdelt[0])
        if safe and (plain or shape[1] < N/2-3): b.close("round trip", back, pix, rtol=1e-6, atol=1e-6)
        else:
            d = back-pix
            if not plain: d[1] = (d[1]+N/2)%N-N/2
            b.close("round trip up to turns", d, d*0, atol=1e-6)
        # any whole number of turns in longitude gives the same pixel
        if not plain and safe in (True,1) and shape[1] < N/2-3:
            k = rng.randint(-2,2); s2 = sky.copy(); s2[1] += 2*np.pi*k
            b.close("turns do not matter", enmap.sky2pix(pre+shape, w, s2, corner=corner), pix, atol=1e-6, rtol=1e-6)
        m = enmap.zeros(pre+shape, w)
        b.close("map method", m.pix2sky(pix, corner=corner, safe=bool(safe)), sky); b.close("map method back", m.sky2pix(sky, corner=corner, safe=safe), back, atol=1e-7)
        g = enmap.Geometry(pre+shape, w)
        b.close("geometry method", g.pix2sky(pix, corner=corner), enmap.pix2sky(shape, w, pix, corner=corner)); b.close("geometry method back", g.sky2pix(sky, corner=corner), enmap.sky2pix(shape, w, sky, corner=corner))
        # position maps: each entry is the position of its pixel, however computed
        cor = rng.choice([False,True])
        full = np.mgrid[:shape[0],:shape[1]]
        want = np.array(w.wcs_pix2world(full[1].ravel()-(0.5 if cor else 0), full[0].ravel()-(0.5 if cor else 0), 0))[::-1].reshape((2,)+shape)*np.pi/180
        for kw in (dict(), dict(safe=False), dict(separable=False), dict(separable=False, bsize=rng.randint(1,40))) + ((dict(separable=True),) if wcsutils.is_separable(w) else ()):
            p = enmap.posmap(pre+shape, w, corner=cor, **kw)
            b.check("posmap shape", p.shape == (2,)+shape)
            if plain: b.close("posmap", p, want, detail=str(kw))
            else: b.check("posmap", np.all(skydist(np.asarray(p), want) < 1e-9), kw)
            if not plain and kw.get("safe",True) and "bsize" not in kw and wcsutils.is_separable(w): b.check("posmap has no jumps", np.all(np.abs(np.diff(np.asarray(p[1]),axis=-1)) <= abs(w.wcs.cdelt[0])*np.pi/180*1.01), kw)
        b.check("posmap geometry", np.allclose(p.wcs.wcs.crpix, w.wcs.crpix))
        b.check("map posmap", np.all(skydist(np.asarray(m.posmap(corner=cor)), want) < 1e-9) or plain)
        b.eq("pixmap", enmap.pixmap(pre+shape, w), full); b.eq("pixmap method", m.pixmap(), full)
        if wcsutils.is_separable(w) or plain:
            dec, ra = enmap.posaxes(pre+shape, w, corner=cor)
            b.check("posaxes", dec.shape == shape[:1] and ra.shape == shape[1:])
            if plain: b.close("posaxes plain", dec, want[0,:,0]); b.close("posaxes plain", ra, want[1,0])
            else:
                b.close("posaxes dec", dec, want[0,:,0]); b.check("posaxes ra", np.all(np.abs(np.exp(1j*ra)-np.exp(1j*want[1,0])) < 1e-9))
        # contains
        if plain or shape[1] < N/2-3:
            cen = np.stack([b.nrng.uniform(-2, shape[0]+1, 12), b.nrng.uniform(-2, shape[1]+1, 12)])
            cen = cen[:,np.all(np.abs(cen-np.round(cen))>1e-4,0)]
            if proj not in ("mer",):
                got = enmap.contains(pre+shape, w, enmap.pix2sky(shape, w, cen))
                b.eq("contains", got, np.all((cen >= 0)&(cen < np.array(shape)[:,None]),0)); b.eq("contains in pixels", enmap.contains(shape, w, cen, unit="pix"), np.all((cen >= 0)&(cen < np.array(shape)[:,None]),0))
        # corners
        for cr in (True, False):
            bx = enmap.box(pre+shape, w, corner=cr); oo = 0.5 if cr else 0
            e = np.array(w.wcs_pix2world([-oo, shape[1]-1+oo], [-oo, shape[0]-1+oo], 0))[::-1]*np.pi/180
            b.check("box", bx.shape == (2,2) and (np.allclose(bx.T, e) if plain else np.all(skydist(bx.T, e) < 1e-9)), (bx, e))
            if proj in ("car","cea","mer"): b.close("box extent", bx[1,1]-bx[0,1], (shape[1]-1+2*oo)*w.wcs.cdelt[0]*np.pi/180)

@bounded(P, ["pixell.enmap.skybox2pixbox","pixell.enmap.pixbox2skybox","pixell.enmap.neighborhood_pixboxes"], "random boxes on cylindrical maps")
def boxes(b):
    from pixell import enmap
    rng = b.rng
    for it in range(b.N(200)):
        proj, shape, w = small_geo(rng, rng.choice(["car","cea","plain"]))
        # keep the box on one turn and inside the valid declinations
        pb = np.array([[rng.uniform(0,8), rng.uniform(0,8)],[rng.uniform(0,8), rng.uniform(0,8)]])
        b.case(proj, shape, str(w), pb.tolist())
        sb = enmap.pixbox2skybox(shape, w, pb)
        b.close("sky box", sb.T, enmap.pix2sky(shape, w, pb.T))
        cor = rng.choice([False,True])
        r = enmap.skybox2pixbox(shape, w, sb, include_direction=True, corner=cor)
        if proj == "car" or proj == "plain": b.close("direction", r[2], np.sign(pb[1]-pb[0]))
        N = abs(360/w.wcs.cdelt[0]); d = r[:2]-pb-(0.5 if cor else 0)
        if proj != "plain": d[:,1] = (d[:,1]+N/2)%N-N/2
        b.close("pixel box", d, d*0, atol=1e-6)
        if proj != "plain": b.close("width", r[1,1]-r[0,1], pb[1,1]-pb[0,1], atol=1e-6)

@external(P, ["cmisc_core.c:wcs_car_sky2pix","cmisc_core.c:wcs_car_pix2sky","cmisc_core.c:wcs_cea_sky2pix","cmisc_core.c:wcs_cea_pix2sky","cmisc_core.c:rewind_inplace"], "all sizes and values (the C source; reals for doubles)")
def kernels(out, tier):
    from vp import ckern; ckern.wcs_kernels(out, tier); ckern.rewind(out, tier)

@bounded(P, ['pixell.enmap.ndmap.sky2pix', 'pixell.enmap.ndmap.pix2sky', 'pixell.enmap.ndmap.contains', 'pixell.enmap.ndmap.corners', 'pixell.enmap.ndmap.box', 'pixell.enmap.ndmap.pixbox_of', 'pixell.enmap.ndmap.posmap', 'pixell.enmap.ndmap.posaxes', 'pixell.enmap.ndmap.pixmap', 'pixell.enmap.ndmap.center', 'pixell.enmap.Geometry.sky2pix', 'pixell.enmap.Geometry.pix2sky'], "the map methods of these functions: every argument, and the defaults (one call each)", name="methods_stand_for_functions")
def methods_stand_for_functions(b):
    from pixell import enmap
    from vp.forward import forwarding
    w = geo.real_wcs("car", [3.0,2.0], [-10.0,10.0], [0.0,0.0]); m = enmap.ndmap(np.arange(20.0).reshape(4,5), w)
    forwarding(b, m, enmap.ndmap, enmap, ['sky2pix', 'pix2sky', 'contains', 'corners', 'box', 'pixbox_of', 'posmap', 'posaxes', 'pixmap', 'center'])
    forwarding(b, enmap.Geometry((4,5), w), enmap.Geometry, enmap, ['sky2pix', 'pix2sky'])
