"""C13: distances on the sky: distance maps, transforms, masks."""
import itertools, os
import numpy as np
from vp.core import *
from vp import geo
P = "C13"

def rg(b, big=1):
    from pixell import enmap, utils
    rng = b.rng; proj = rng.choice(["car","cea","tan","zea","full","car"]); n = 12*big
    if proj == "full": s, w = enmap.fullsky_geometry(shape=(rng.randint(6,14),rng.choice([12,16,20])))
    else: s, w = enmap.geometry(pos=(rng.uniform(-1,1),rng.uniform(-3,3)), shape=(rng.randint(2,n),rng.randint(2,n+4)), res=rng.uniform(0.2,3)*utils.degree, proj=proj)
    if rng.random() < 0.6: s, w = enmap.slice_geometry(s, w, (slice(None,None,rng.choice([1,-1])),slice(None,None,rng.choice([1,-1]))))
    return proj, tuple(int(v) for v in s), w
def ang(p, q):
    """angle between [{dec,ra},...] and [{dec,ra},...] from the chord and the sum of unit vectors"""
    v = [np.array([np.cos(x[0])*np.cos(x[1]), np.cos(x[0])*np.sin(x[1]), np.sin(x[0])]) for x in (p,q)]
    return 2*np.arctan2(np.sqrt(np.sum((v[0]-v[1])**2,0)), np.sqrt(np.sum((v[0]+v[1])**2,0)))
def brute(pos, pts): return ang(pos[...,None], pts.reshape((2,)+(1,)*(pos.ndim-1)+(-1,)))
class quiet:
    """the compiled code prints timings to stderr"""
    def __enter__(self): self.k = os.dup(2); n = os.open(os.devnull, os.O_WRONLY); os.dup2(n, 2); os.close(n)
    def __exit__(self, *a): os.dup2(self.k, 2); os.close(self.k)

def judge(b, d, r, dom, rmax, tol, exact):
    """d[...,point]: true distances. r: reported, dom: reported nearest point"""
    md = d.min(-1); lim = md if rmax is None else np.minimum(md, rmax); eps = 1e-7
    b.check("never below the true distance", np.all(r >= lim-eps), (r,lim))
    if exact: b.close("the nearest distance", r, lim, 0, eps)
    else: b.check("within a pixel of the nearest distance", np.all(r <= lim+tol+eps), (float((r-lim).max()),tol))
    if dom is None: return
    b.check("points are named", np.all(dom < d.shape[-1]) and np.all((dom >= 0)|(r == (np.inf if rmax is None else rmax))), dom)
    own = np.take_along_axis(d, np.maximum(dom,0)[...,None], -1)[...,0]; b.check("the distance is that to the named point", np.all(np.abs(own-r)[dom >= 0] < eps), (own,r))
    if rmax is not None: b.check("nothing named beyond rmax", np.all(dom[md > rmax+eps] == -1) and np.all(r[dom == -1] == rmax), (dom,md))
    elif exact: b.check("every pixel has a nearest point", np.all(dom >= 0))

@bounded(P, ["pixell.enmap.distance_from","pixell.distances.distance_from_points_simple","pixell.distances.distance_from_points_simple_separable","pixell.distances.distance_from_points_bubble","pixell.distances.distance_from_points_bubble_separable","pixell.distances.distance_from_points_cellgrid","pixell.distances.fix_point_pix","pixell.distances.fix_point_pix_separable"], "random maps up to 16x12 (28x24 thorough) in five projections with either axis direction, 1 to 8 points inside or anywhere on the sky; the fast methods to the size of a pixel")
def from_points(b):
    from pixell import enmap, distances, wcsutils
    rng = b.rng
    for it in range(b.N(400)):
        proj, s, w = rg(b); pos = np.asarray(enmap.posmap(s, w, safe=False)); n = rng.choice([1,1,2,3,5,8]); where = rng.choice(["in","centre","any"])
        if where == "any": pts = np.array([np.arcsin(b.nrng.uniform(-1,1,n)), b.nrng.uniform(-7,7,n)])
        else:
            pix = np.array([b.nrng.uniform(-0.5,s[0]-0.5,n),b.nrng.uniform(-0.5,s[1]-0.5,n)]); pix = np.round(pix).clip(0,np.array(s)[:,None]-1) if where == "centre" else pix; pts = np.asarray(enmap.pix2sky(s, w, pix))
            if np.any(np.isnan(pts)): continue
        if np.any(np.isnan(pos)): continue
        d = brute(pos, pts); rmax = rng.choice([None,None,rng.uniform(0.2,1.2)*d.max()]); diag = float(np.hypot(*enmap.pixshape(s, w))); tol = 2.5*diag; b.case(proj, s, w, where, pts.tolist(), rmax)
        pole = bool(np.any(np.abs(pos[0]) > 1.3)); dup = len(set(map(tuple, np.round(enmap.sky2pix(s, w, pts)).T.tolist()))) < n
        with quiet():
            for meth in ("simple","cellgrid","bubble"):
                pp = pts[:,0] if n == 1 and rng.random() < 0.5 else pts; rm = None if meth == "simple" else rmax
                om = enmap.full(s, w, np.nan) if rng.random() < 0.3 else None; r, dom = enmap.distance_from(s, w, pp, domains=True, method=meth, rmax=rm, omap=om); r2 = enmap.distance_from(s, w, pp, method=meth, rmax=rm); b.case(proj, s, w, where, pts.tolist(), rm, meth)
                b.check("shape and geometry", np.shape(r) == s and np.shape(dom) == s and wcsutils.equal(r.wcs, w)); b.eq("same with and without domains", np.asarray(r2), np.asarray(r))
                if om is not None: b.check("written into omap", np.array_equal(np.asarray(om), np.asarray(r)))
                exact = meth == "simple" or (n == 1 and rm is None)
                judge(b, d, np.asarray(r), np.asarray(dom), rm, np.inf if pole or rm is not None else tol, exact)
            # the compiled entry points with small cells
            if wcsutils.is_separable(w): y, x = enmap.posaxes(s, w)
            else: y, x = pos
            px = np.round(np.asarray(enmap.sky2pix(s, w, pts))).astype(int)
            for bs in (rng.randint(1,5), (rng.randint(1,6),rng.randint(1,6))):
                for dr in (np.inf, d.max()*rng.uniform(0.05,0.5)):
                    b.case("cells", proj, s, w, pts.tolist(), rmax, bs, dr); r, dom = distances.distance_from_points_cellgrid(y, x, pts, px, rmax=rmax, bsize=np.array(bs), dr=dr, domains=True); judge(b, d, r, dom, rmax, np.inf if pole or rmax is not None else tol, n == 1 and rmax is None)
            b.case("general pixelization", proj, s, w, pts.tolist(), rmax); r, dom = distances.distance_from_points_bubble(pos, pts, px, rmax=rmax, domains=True); judge(b, d, r, dom, rmax, np.inf if pole or rmax is not None else tol, n == 1 and rmax is None); r, dom = distances.distance_from_points_simple(pos, pts, domains=True); judge(b, d, r, dom, None, 0, True)
            r, dom = distances.distance_from_points_cellgrid(pos[0], pos[1], pts, px, rmax=rmax, bsize=rng.randint(1,6), domains=True); judge(b, d, r, dom, rmax, np.inf if pole or rmax is not None else tol, n == 1 and rmax is None)
        b.case("no points", s, w); r, dom = enmap.distance_from(s, w, np.zeros((2,0)), domains=True, rmax=rmax); b.check("no points", np.all(r == (np.inf if rmax is None else rmax)) and np.all(dom == -1))

@bounded(P, ["pixell.enmap.distance_transform","pixell.enmap.labeled_distance_transform","pixell.distances.find_edges","pixell.distances.find_edges_labeled","pixell.enmap.grow_mask","pixell.enmap.shrink_mask","pixell.enmap.find_blank_edges"], "random masks and label maps up to 16x12 in five projections; the fast methods to a pixel")
def transforms(b):
    from pixell import enmap, distances, wcsutils
    rng = b.rng
    for it in range(b.N(300)):
        proj, s, w = rg(b); pos = np.asarray(enmap.posmap(s, w, safe=False))
        if np.any(np.isnan(pos)): continue
        lead = rng.choice([(),(),(2,)]); f = rng.choice([0.3,0.7,0.9,0.97]); mask = enmap.ndmap(b.nrng.uniform(size=lead+s) < f, w); diag = float(np.hypot(*enmap.pixshape(s, w))); pole = bool(np.any(np.abs(pos[0]) > 1.3)); tol = np.inf if pole else 1.5*diag; flat = mask.reshape((-1,)+s); rmax = rng.choice([None,None,rng.uniform(1,5)*diag]); b.case(proj, s, w, np.asarray(mask).astype(int).tolist(), rmax)
        true = np.array([brute(pos, pos[:,~q]).min(-1) if np.any(~q) else np.full(s, np.inf) for q in np.asarray(flat)]).reshape(lead+s); lim = true if rmax is None else np.minimum(true, rmax)
        with quiet():
            for meth in ("simple","cellgrid","bubble"):
                rm = None if meth == "simple" else rmax; want = true if rm is None else lim; keep = np.array(mask); r = mask.distance_transform(method=meth, rmax=rm) if rng.random() < 0.5 else enmap.distance_transform(mask, method=meth, rmax=rm); r = np.asarray(r); b.eq("mask kept", np.array(mask), keep)
                b.check("zero outside the mask", np.all(r[~keep] == 0)); fin = np.isfinite(want); b.check("no false pixel: infinite", np.array_equal(np.isfinite(r), fin)); b.check("never below the distance to a false pixel", np.all(r[fin] >= want[fin]-1e-7)); b.check("within a pixel", np.all(r[fin] <= want[fin]+(1e-7 if meth == "simple" else tol)), (meth,float((r-want)[fin].max()) if fin.any() else 0,tol))
            # edges
            for q in np.asarray(flat)[:1]:
                e = np.array(distances.find_edges(q)); got = set(map(tuple, e.T.tolist())); pad = np.pad(q, 1, constant_values=True); nb = pad[:-2,1:-1]|pad[2:,1:-1]|pad[1:-1,:-2]|pad[1:-1,2:]; b.check("edge pixels", got == set(map(tuple, np.argwhere(~q & nb).tolist())), (sorted(got)))
            # growing and shrinking
            m = enmap.ndmap(np.asarray(flat)[0], w); rad = rng.uniform(0.7,4)*diag; b.case("grow", proj, s, w, np.asarray(m).astype(int).tolist(), rad)
            dT = brute(pos, pos[:,np.asarray(m)]).min(-1) if np.any(m) else np.full(s, np.inf); dF = true.reshape((-1,)+s)[0]
            g = np.asarray(enmap.grow_mask(m, rad)); h = np.asarray(enmap.shrink_mask(m, rad)); b.check("types", g.dtype == bool and h.dtype == bool)
            b.check("growing keeps the mask", np.all(g[np.asarray(m)])); b.check("growing adds only what is near", np.all(dT[g] < rad+1e-7)); b.check("growing adds all that is near", np.all(g[dT < rad-min(tol,rad)])); b.check("shrinking only removes", not np.any(h & ~np.asarray(m))); b.check("shrinking removes only what is near the edge", np.all(dF[np.asarray(m) & ~h] < rad+1e-7), (dF,rad)); b.check("shrinking removes all that is near the edge", not np.any(h & (dF < rad-min(tol,rad))))
            # labels
            nl = rng.randint(1,4); lab = np.where(b.nrng.uniform(size=s) < rng.choice([0.05,0.3]), b.nrng.integers(1,nl+1,s), 0); blob = [rng.randint(0,s[0]-1),rng.randint(0,s[1]-1)]; lab[blob[0]:blob[0]+3,blob[1]:blob[1]+3] = 1; L = enmap.ndmap(lab, w); b.case("labels", proj, s, w, lab.tolist(), rmax); ids = sorted(set(lab[lab > 0].tolist())); per = {k: brute(pos, pos[:,lab == k]).min(-1) for k in ids}; near = np.min([per[k] for k in ids],0)
            for meth in ("simple","cellgrid","bubble"):
                rm = None if meth == "simple" else rmax; r, dom = enmap.labeled_distance_transform(L, method=meth, rmax=rm); r, dom = np.asarray(r), np.asarray(dom); want = near if rm is None else np.minimum(near, rm)
                b.check("labels: zero inside", np.all(r[lab > 0] == 0)); b.check("labels: never below", np.all(r >= want-1e-7)); b.check("labels: within a pixel", np.all(r <= want+(1e-7 if meth == "simple" else tol)), (meth,float((r-want).max())))
                out = (lab == 0)&(dom > 0); b.check("labels: known", set(np.unique(dom)) <= set(ids)|{0}); b.check("labels: the label named is the nearest", all(-1e-7 < r[i]-per[dom[i]][i] < (1e-7 if meth == 'simple' else tol+1e-7) for i in map(tuple, np.argwhere(out)))); b.check("labels: unlabeled only beyond rmax", np.all(dom > 0) if rm is None else np.all(r[dom == 0] >= rm-1e-7))
                if meth == "simple": inside = lab > 0; b.check("labels: kept at the edges", all(dom[i] == lab[i] for i in map(tuple, np.array(distances.find_edges_labeled(L)).T)))

@bounded(P, ["pixell.enmap.distance_from_healpix","pixell.enmap.distance_transform_healpix","pixell.enmap.labeled_distance_transform_healpix","pixell.distances.distance_from_points_healpix","pixell.distances.healpix_info","pixell.distances.find_edges_healpix","pixell.distances.find_edges_labeled_healpix","pixell.distances.unravel_healpix","pixell.distances.ravel_healpix"], "nside 1 to 8, up to 8 points, random masks and labels; to the size of a pixel")
def healpix(b):
    import healpy
    from pixell import enmap, distances
    rng = b.rng
    for nside in (1,2,4,8,16):
        info = distances.healpix_info(nside); npix = 12*nside**2; b.case("info", nside); pix = np.arange(npix); yx = distances.unravel_healpix(info, pix); b.eq("1d and 2d pixel numbers", np.asarray(distances.ravel_healpix(info, yx)), pix); th, ph = healpy.pix2ang(nside, pix); y, x = np.asarray(yx); b.close("ring declinations", np.asarray(info.dec)[y], np.pi/2-th, 0, 1e-9); b.check("rings", np.array_equal(np.asarray(info.off)[y]+x, pix) and info.npix == npix)
    for it in range(b.N(300)):
        nside = rng.choice([1,2,4,8]); npix = 12*nside**2; th, ph = healpy.pix2ang(nside, np.arange(npix)); pos = np.array([np.pi/2-th,ph]); n = rng.choice([1,1,2,4,8]); pts = np.array([np.arcsin(b.nrng.uniform(-1,1,n)), b.nrng.uniform(0,6.28,n)]); d = brute(pos, pts); rmax = rng.choice([None,rng.uniform(0.2,1.2)*d.max()]); tol = 2.5*np.sqrt(4*np.pi/npix)*1.5
        for meth in ("bubble","heap"):
            b.case(nside, pts.tolist(), rmax, meth); r, dom = enmap.distance_from_healpix(nside, pts, domains=True, rmax=rmax, method=meth); judge(b, d, r, dom, rmax, tol if rmax is None else np.inf, n == 1 and rmax is None); b.eq("without domains", enmap.distance_from_healpix(nside, pts, rmax=rmax, method=meth), r)
            m = b.nrng.uniform(size=npix) < rng.choice([0.3,0.8,0.95])
            m[...] = rng.choice([m,m,m,m,m,True,False])
            if True:
                b.case("mask", nside, m.astype(int).tolist(), meth); want = brute(pos, pos[:,~m]).min(-1) if not m.all() else np.full(npix, np.inf); r = enmap.distance_transform_healpix(m, method=meth); b.check("zero outside", np.all(r[~m] == 0)); b.check("never below", np.all(r >= want-1e-7)); b.check("within a pixel", np.all(r <= want+tol), r)
            nl = rng.randint(1,3); lab = np.where(b.nrng.uniform(size=npix) < 0.1, b.nrng.integers(1,nl+1,npix), 0); lab[rng.randrange(npix)] = 1; b.case("labels", nside, lab.tolist(), meth); ids = sorted(set(lab[lab > 0].tolist())); per = {k: brute(pos, pos[:,lab == k]).min(-1) for k in ids}; near = np.min([per[k] for k in ids],0); r, dom = enmap.labeled_distance_transform_healpix(lab, method=meth); b.check("labels: zero inside", np.all(r[lab > 0] == 0)); b.check("labels: never below", np.all(r >= near-1e-7)); b.check("labels: within a pixel", np.all(r <= near+tol)); b.check("labels: the label named is the nearest", all(dom[i] in ids and -1e-7 < r[i]-per[dom[i]][i] < tol for i in np.where(lab == 0)[0]), dom)

@external(P, ["distances_core.c:distance_from_points_simple"], "all positions, points and sizes (the C source; reals for doubles)")
def kernel_simple(out, tier):
    from vp import ckern; ckern.simple(out, tier)
@external(P, ["distances_core.c:distance_from_points_simple_separable"], "all positions, points and sizes (the C source; reals for doubles)")
def kernel_separable(out, tier):
    from vp import ckern; ckern.separable(out, tier)

@bounded(P, ['pixell.enmap.ndmap.distance_from', 'pixell.enmap.ndmap.distance_transform', 'pixell.enmap.ndmap.labeled_distance_transform'], "the map methods of these functions: every argument, and the defaults (one call each)", name="methods_stand_for_functions")
def methods_stand_for_functions(b):
    from pixell import enmap
    from vp.forward import forwarding
    w = geo.real_wcs("car", [3.0,2.0], [-10.0,10.0], [0.0,0.0]); m = enmap.ndmap(np.arange(20.0).reshape(4,5), w)
    forwarding(b, m, enmap.ndmap, enmap, ['distance_from', 'distance_transform', 'labeled_distance_transform'])
    forwarding(b, enmap.Geometry((4,5), w), enmap.Geometry, enmap, [])
