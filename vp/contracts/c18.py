"""C18: point sources and other objects: painting them, reading profiles around them, catalogues."""
import itertools, os, tempfile, shutil
import numpy as np
from vp.core import *
from vp import geo
P = "C18"
def ang(p, q):
    v = [np.array([np.cos(x[0])*np.cos(x[1]), np.cos(x[0])*np.sin(x[1]), np.sin(x[0])]) for x in (p,q)]
    return 2*np.arctan2(np.sqrt(np.sum((v[0]-v[1])**2,0)), np.sqrt(np.sum((v[0]+v[1])**2,0)))
def rg(b, nmin=3, nmax=24):
    """a geometry in double precision and the positions of its pixels by wcslib"""
    from pixell import enmap, utils
    rng = b.rng; proj = rng.choice(["car","cea","tan","zea","full","full","car"])
    if proj == "full":
        ny = rng.randint(8,24); s, w = enmap.fullsky_geometry(shape=(ny, rng.choice([16,18,20,22,26,31,40])))
        if rng.random() < 0.4: k = rng.randint(0, s[-1]-1); w = w.deepcopy(); w.wcs.crpix[0] += k
    else: s, w = enmap.geometry(pos=(rng.uniform(-1,1),rng.choice([rng.uniform(-3.1,3.1),3.1,3.14,-3.1,np.pi])), shape=(rng.randint(nmin,nmax),rng.randint(nmin,nmax)), res=rng.uniform(0.2,2)*utils.degree, proj=proj)
    if rng.random() < 0.6: s, w = enmap.slice_geometry(s, w, (slice(None,None,rng.choice([1,-1])),slice(None,None,rng.choice([1,-1]))))
    s = tuple(int(v) for v in s); yy, xx = np.mgrid[:s[0],:s[1]]; ra, dec = w.wcs_pix2world(xx.ravel(), yy.ravel(), 0)
    return proj, s, w, np.array([dec,ra]).reshape((2,)+s)*np.pi/180
def points(b, s, w, pos, n):
    """positions in, at the edge of, and outside the map, also by whole turns in longitude"""
    rng = b.rng; out = []
    for i in range(n):
        k = rng.choice(["in","edge","any","pix"])
        if k == "any": p = np.array([np.arcsin(rng.uniform(-1,1)), rng.uniform(-3.1,3.1)])
        else:
            y, x = (rng.uniform(-0.5,s[0]-0.5), rng.uniform(-0.5,s[1]-0.5)) if k == "in" else (rng.choice([0,s[0]-1,rng.randrange(s[0])])+rng.uniform(-0.5,0.5), rng.choice([0,s[1]-1])+rng.uniform(-1,1)) if k == "edge" else (rng.randrange(s[0]),rng.randrange(s[1]))
            ra, dec = w.wcs_pix2world(x, y, 0); p = np.array([float(dec),float(ra)])*np.pi/180
        if not np.all(np.isfinite(p)): p = np.array([0.1,0.2])
        out.append([p[0], p[1]+2*np.pi*rng.choice([0,0,0,1,-1])])
    return np.array(out).T
def profile(b, w, s):
    """a radial profile resolved by a few pixels: equidistant or not, monotonic or not, peak 1 or not"""
    from pixell import enmap
    rng = b.rng; pix = float(enmap.pixsize(s, w))**0.5; sig = pix*rng.uniform(0.7,2.5); sig = min(sig, 0.25); kind = rng.choice(["gauss","gauss","ring","coarse","table"])
    n = rng.choice([60,200]); r = np.linspace(0, sig*rng.choice([3,5]), n)
    if kind == "table": r = np.sort(np.concatenate([[0], b.nrng.uniform(0.01,1,n-1)]))*r[-1]; r[1:] += np.arange(1,n)*1e-4*sig
    if kind == "coarse": r = np.array([0,0.4,1,1.5,3])*sig
    v = np.exp(-0.5*(r/sig)**2)
    if kind == "ring": v = v*(1-1.5*(r/sig)**2)
    if rng.random() < 0.3: v = v*rng.choice([0.02,5.0,40.0])
    return np.array([r,v]), kind, sig
def contribution(pos, pts, amps, profs, ids):
    """[nobj,ncomp,ny,nx] of amp*prof(r), linear between samples and zero beyond the last"""
    out = np.zeros((pts.shape[1],)+amps.shape[:1]+pos.shape[1:]); r = np.zeros((pts.shape[1],)+pos.shape[1:])
    for i in range(pts.shape[1]):
        r[i] = ang(pos, pts[:,i,None,None]); f = np.interp(r[i], *profs[ids[i]]); f[r[i] >= profs[ids[i]][0,-1]] = 0; out[i] = amps[:,i,None,None]*f
    return out, r
def slope(p): return np.max(np.abs(np.diff(p[1])/np.diff(p[0])))

@bounded(P, ["pixell.pointsrcs.sim_objects","pixell.pointsrcs.is_equi","pixell.srcsim.sim_objects"], "maps up to 24x40 in five projections with either axis direction, 1 to 40 objects anywhere, up to 3 profiles, components 1 to 3")
def objects(b):
    from pixell import enmap, pointsrcs, wcsutils, utils
    rng = b.rng
    for it in range(b.N(350)):
        proj, s, w, pos = rg(b); n = rng.choice([1,2,3,8,25,40]); pts = points(b, s, w, pos, n); npr = rng.choice([1,1,2,3]); PR = [profile(b, w, s) for _ in range(npr)]; profs = [p[0] for p in PR]
        if np.any(np.isnan(pos)): continue
        lead = rng.choice([(),(1,),(3,),(2,1)]); amps = b.nrng.uniform(0.1,2,lead+(n,))*b.nrng.choice([-1,1],lead+(n,)); flat = amps.reshape(-1,n); ids = b.nrng.integers(0,npr,n) if npr > 1 else np.zeros(n,int)
        vmin = rng.choice([None,1e-3,0.05]); rmax = rng.choice([None,None,None,rng.uniform(0.5,3)*PR[0][2]]); b.case(proj, s, str(w), pts.tolist(), amps.tolist(), [p[1] for p in PR], ids.tolist(), vmin, rmax)
        kw = dict(vmin=vmin, rmax=rmax); 
        if npr > 1: kw["prof_ids"] = ids
        if rng.random() < 0.3: kw["prof_equi"] = False
        if rng.random() < 0.3 and wcsutils.is_separable(w) and proj != "full": kw["separable"] = False
        arg = profs if npr > 1 or rng.random() < 0.5 else profs[0]; keep = [pts.copy(), amps.copy(), [p.copy() for p in profs]]
        om = None; base = np.zeros((len(flat),)+s)
        if rng.random() < 0.4: base = b.nrng.uniform(-1,1,base.shape).astype(np.float32).astype(float); om = enmap.ndmap(base.reshape(lead+s).astype(np.float32), w)
        r = pointsrcs.sim_objects(s, w, pts, amps, arg, omap=om, **kw)
        b.check("shape, type and geometry", r.shape == lead+s and r.dtype == np.float32 and wcsutils.equal(r.wcs, w), r.shape); b.check("arguments unchanged", np.array_equal(keep[0],pts) and np.array_equal(keep[1],amps) and all(np.array_equal(x,y) for x,y in zip(keep[2],profs)))
        if om is not None: b.eq("written into omap", np.asarray(om), np.asarray(r))
        C, rr = contribution(pos, pts, flat, profs, ids); lim = vmin if vmin is not None else np.min(np.abs(amps))*1e-3
        tol = np.zeros(base.shape)+1e-5
        for i in range(n):
            p = profs[ids[i]]; big = np.nonzero(np.abs(p[1])*np.max(np.abs(flat[:,i])) >= lim*(1+1e-5))[0]; R = p[0,big[-1]] if len(big) else 0.0; R = R if rmax is None else min(R, rmax)
            tol += np.abs(flat[:,i])[:,None,None]*(slope(p)*2e-6*(rr[i] < p[0,-1]+1e-5)+2e-6*np.max(np.abs(p[1])))+np.where(rr[i] > R-1e-5, np.abs(C[i]), 0)+np.where(np.abs(rr[i]-p[0,-1]) < 3e-6, np.abs(flat[:,i])[:,None,None]*abs(p[1,-1]), 0)
        err = np.abs(np.asarray(r).reshape(base.shape)-base-C.sum(0)); b.check("sum of the objects' profiles", np.all(err <= tol), (float((err-tol).max()), np.argwhere(err > tol)[:3].tolist()))
        b.eq("default output is a sum into zeros", np.asarray(pointsrcs.sim_objects(s, w, pts, amps, arg, cache={}, **kw)), np.asarray(r)) if om is None else None
        # largest and smallest contribution
        if vmin is None and rmax is None:
            for op, f in (("max",np.maximum),("min",np.minimum)):
                A = np.abs(flat) if op == "max" else -np.abs(flat); pp = [np.array([p[0],np.abs(p[1])]) for p in profs]; B0 = np.abs(base)*(1 if op == "max" else -1)
                o2 = enmap.ndmap(B0.reshape(lead+s).astype(np.float32), w); q = pointsrcs.sim_objects(s, w, pts, A.reshape(amps.shape), pp if npr > 1 else pp[0], omap=o2, op=op, **kw); C2, _ = contribution(pos, pts, A, pp, ids)
                want = f(B0, f.reduce(C2,0)); e = np.abs(np.asarray(q).reshape(base.shape)-want); t2 = np.abs(A).max()*(max(slope(p) for p in pp)*2e-6+1e-5*max(p[1].max() for p in pp))+lim*1.01+max(abs(p[1,-1]) for p in pp)*np.abs(A).max()*np.max([np.abs(rr[i]-profs[ids[i]][0,-1]) < 3e-6 for i in range(n)])
                b.check("op="+op, np.all(e <= t2+np.max([np.max(np.abs(np.diff(p[1])))*np.abs(A).max()*(len(p[0]) < 10) for p in pp])), (float(e.max()), float(t2)))

@bounded(P, ["pixell.pointsrcs.radial_sum","pixell.pointsrcs.radial_bin","pixell.srcsim.radial_sum"], "maps up to 24x40 in five projections, 1 to 8 objects, equidistant and general bins")
def profiles(b):
    from pixell import enmap, pointsrcs, wcsutils, utils
    rng = b.rng
    for it in range(b.N(300)):
        proj, s, w, pos = rg(b); n = rng.choice([1,2,8]); pts = points(b, s, w, pos, n)
        if np.any(np.isnan(pos)): continue
        pix = float(enmap.pixsize(s, w))**0.5; nb = rng.randint(2,8); equi = rng.random() < 0.5; bins = np.arange(nb+1)*pix*rng.uniform(0.8,2) if equi else np.sort(b.nrng.uniform(0,8,nb+1))*pix+np.arange(nb+1)*0.3*pix
        lead = rng.choice([(),(1,),(3,),(2,1)]); dt = rng.choice([np.float32,np.float64]); m = enmap.ndmap(b.nrng.uniform(0.5,2,lead+s).astype(dt), w); raw = np.array(m); kw = {}
        if rng.random() < 0.3 and wcsutils.is_separable(w) and proj != "full": kw["separable"] = False
        b.case(proj, s, str(w), pts.tolist(), bins.tolist(), lead, str(dt), kw)
        S = pointsrcs.radial_sum(m, pts, bins, **kw); b.check("shape", S.shape == (n,)+lead+(nb,), S.shape); W = enmap.ndmap(b.nrng.uniform(0.1,2,s).astype(dt), w)
        B, BW = pointsrcs.radial_bin(m, pts, bins, **kw), pointsrcs.radial_bin(m, pts, bins, weights=W, **kw); b.eq("map unchanged", np.asarray(m), raw)
        flat = raw.reshape(-1,*s)
        for i in range(n):
            r = ang(pos, pts[:,i,None,None]); near = np.min(np.abs(r-bins[:,None,None]),0) < 3e-6
            for k in range(nb):
                sel = (r >= bins[k])&(r < bins[k+1]); amb = near&((np.abs(r-bins[k]) < 3e-6)|(np.abs(r-bins[k+1]) < 3e-6))
                got = S[i].reshape(-1,nb)[:,k]; want = np.array([f[sel].sum() for f in flat]); t = np.array([np.abs(f[amb]).sum() for f in flat])+1e-4*(1+np.abs(want)); b.check("sum of the pixels in the ring", np.all(np.abs(got-want) <= t), (i,k,got,want))
                if sel.any() and not amb.any():
                    wt = np.asarray(W)[sel]; b.close("mean in the ring", B[i].reshape(-1,nb)[:,k], [f[sel].mean() for f in flat], rtol=1e-4); b.close("weighted mean in the ring", BW[i].reshape(-1,nb)[:,k], [(f[sel]*wt).sum()/wt.sum() for f in flat], rtol=1e-4)
        if it % 5 == 0:
            o = np.ones((n,)+lead+(nb,), np.float32); q = pointsrcs.radial_sum(m, pts, bins, oprofs=o, **kw); b.check("adds to the given profiles", q is o); b.close("values added", o, S+1, rtol=1e-4)

@bounded(P, ["pixell.pointsrcs.sim_srcs","pixell.pointsrcs.sim_srcs_python","pixell.pointsrcs.eval_srcs_loop","pixell.pointsrcs.sim_srcs_dist_transform","pixell.pointsrcs.expand_beam","pixell.pointsrcs.nsigma2rmax","pixell.pointsrcs.build_src_cells"], "maps of 12x12 to 30x30 pixels and full-sky maps, 1 to 8 sources, tabulated and Gaussian beams")
def sources(b):
    from pixell import enmap, pointsrcs, wcsutils, utils
    rng = b.rng
    for it in range(b.N(120)):
        proj, s, w, pos = rg(b, 12, 30)
        if np.any(np.isnan(pos)) or s[0] < 12 or s[1] < 12 or (proj not in ("full",) and np.max(np.abs(pos[0])) > 1.0): continue
        n = rng.choice([1,2,5,8]); pts = points(b, s, w, pos, n); nc = rng.choice([1,3]); na = rng.choice([nc,nc+2]); amps = b.nrng.uniform(0.2,2,(n,na))*b.nrng.choice([-1,1],(n,na)); srcs = np.concatenate([pts.T, amps],1); s0 = srcs.copy()
        pix = float(enmap.pixsize(s, w))**0.5; sig = min(pix*rng.uniform(1,2), 0.12); ns = rng.choice([3,5]); beam = np.array([np.linspace(0,ns*sig,400),np.exp(-0.5*np.linspace(0,ns,400)**2)]) if rng.random() < 0.5 else sig
        full = (nc,)+s if nc > 1 or rng.random() < 0.5 else s; b.case(proj, full, str(w), srcs.tolist(), "table" if np.ndim(beam) else sig, ns)
        C = np.zeros((n,nc)+s)
        for i in range(n): r = ang(pos, pts[:,i,None,None]); C[i] = amps[i,:nc,None,None]*np.where(r < ns*sig, np.exp(-0.5*(r/sig)**2), 0)
        cut = np.exp(-0.5*ns**2); tol = np.abs(amps).max()*n*cut*1.05+1e-4*np.abs(amps).max()
        tolp = np.abs(amps).max()*n*np.exp(-0.5*(0.75*ns)**2)+tol  # the python method finds the reach of a source from a sample of the pixel sizes
        flat = proj in ("tan","zea") or proj == "car" and np.max(np.abs(pos[0])) < 0.7; base = b.nrng.uniform(-1,1,full)
        for meth in ("c","python"):
            if meth == "python" and not flat: continue
            om = enmap.ndmap(base.astype(np.float32), w) if rng.random() < 0.5 else None
            r = pointsrcs.sim_srcs(full, w, srcs, beam, omap=om, nsigma=ns, method=meth); b.check(meth+": shape", r.shape == full, r.shape)
            b.check(meth+": sum of the sources", np.max(np.abs(np.asarray(r).reshape((nc,)+s)-(0 if om is None else base.astype(np.float32).reshape((nc,)+s))-C.sum(0))) <= (tolp if meth == "python" else tol), (meth, float(np.max(np.abs(np.asarray(r).reshape((nc,)+s)-(0 if om is None else base.reshape((nc,)+s))-C.sum(0)))), tol))
            if om is not None: b.eq(meth+": written into omap", np.asarray(om), np.asarray(r))
        if flat:
            r = pointsrcs.sim_srcs(full, w, srcs, beam, nsigma=ns, method="python", smul=-2, dtype=np.float64); b.check("smul", r.dtype == np.float64 and np.max(np.abs(np.asarray(r).reshape((nc,)+s)+2*C.sum(0))) <= 2*tolp)
        ab = np.abs(amps); sr = np.concatenate([pts.T,ab],1); q = pointsrcs.sim_srcs(full, w, sr, beam, nsigma=ns, op=np.max); b.check("op max", np.max(np.abs(np.asarray(q).reshape((nc,)+s)-np.abs(C).max(0))) <= tol, float(np.max(np.abs(np.asarray(q).reshape((nc,)+s)-np.abs(C).max(0)))))
        pw = pointsrcs.sim_srcs(full, w, srcs, beam, nsigma=ns, pixwin=True, pixwin_order=1); b.close("pixel window of the order asked for", np.asarray(pw), np.asarray(enmap.apply_window(pointsrcs.sim_srcs(full, w, srcs, beam, nsigma=ns), order=1)), atol=1e-5)
        # sources that do not overlap, by distances
        d = ang(pts[:,:,None], pts[:,None,:])+10*np.eye(n); ok = np.min(d) > 2.2*ns*sig
        if proj == "car" and ok:
            rr = np.array([ang(pos, pts[:,i,None,None]) for i in range(n)])
            for rm in (None, 0.7*ns*sig):
                r = pointsrcs.sim_srcs_dist_transform(full, w, srcs, beam, nsigma=ns, rmax=rm, smul=rng.choice([1,-2])) if False else pointsrcs.sim_srcs_dist_transform(full, w, srcs, beam, nsigma=ns, rmax=rm)
                R = ns*sig if rm is None else rm; e = np.abs(np.asarray(r).reshape((nc,)+s)-np.where(np.min(rr,0) < R-1e-6, C.sum(0), 0)); b.check("by distance transform", np.all(e[:,np.abs(np.min(rr,0)-R) > 1e-3*sig] <= tol), (float(e.max()),tol,rm))
            r = pointsrcs.sim_srcs_dist_transform(full, w, srcs, beam, nsigma=ns, smul=-2); b.check("by distance transform, scaled", np.max(np.abs(np.asarray(r).reshape((nc,)+s)+2*C.sum(0))) <= 2*tol)
        b.eq("sources unchanged", srcs, s0)

@bounded(P, ["pixell.pointsrcs.cellify","pixell.pointsrcs.uncellify","pixell.pointsrcs.build_src_cells","pixell.pointsrcs.build_src_cells_helper"], "arrays up to 12x12 and grids of up to 5x5 cells")
def cells(b):
    from pixell import pointsrcs
    rng = b.rng
    for it in range(b.N(200)):
        lead = rng.choice([(),(2,),(2,3)]); m = b.nrng.random(lead+(rng.randint(1,12),rng.randint(1,12))); res = [rng.randint(1,5),rng.randint(1,5)]; b.case(m.shape, res)
        if m.shape[-2] >= res[0] and m.shape[-1] >= res[1]:
            c = pointsrcs.cellify(m, res); ny, nx = m.shape[-2]//res[0], m.shape[-1]//res[1]; b.check("shape", c.shape == lead+(ny,nx,res[0],res[1]), c.shape)
            b.check("cells", all(np.array_equal(c[...,i,j,:,:], m[...,i*res[0]:(i+1)*res[0],j*res[1]:(j+1)*res[1]]) for i in range(ny) for j in range(nx))); b.eq("back", pointsrcs.uncellify(c), m[...,:ny*res[0],:nx*res[1]])
        cres = np.array([rng.randint(1,4),rng.randint(1,4)]); nc = [rng.randint(1,5),rng.randint(1,5)]; box = np.array([[0,0],cres*nc]); n = rng.randint(1,5); src = b.nrng.uniform(-6,22,(n,2)); wrap = rng.choice([None,[0,0],[0,int(box[1,1]+8)]]); b.case("cells", box.tolist(), cres.tolist(), src.tolist(), wrap); k0 = src.copy()
        nh, cs = pointsrcs.build_src_cells(box, src, cres, wrap=wrap); b.check("grid", nh.shape == tuple(nc)); b.eq("sources unchanged", src, k0)
        for cy in range(nc[0]):
            for cx in range(nc[1]):
                got = cs[cy,cx,:nh[cy,cx]].tolist(); b.check("each source once", len(set(got)) == len(got), got)
                for i in range(n):
                    for o in ([0] if wrap is None or not wrap[1] else [-wrap[1],0,wrap[1]]):
                        y, x = src[i]+[0,o]; lo, hi = np.array([cy,cx])*cres, np.array([cy+1,cx+1])*cres
                        if lo[0]-cres[0] < y < hi[0]+cres[0]-1e-9 and lo[1]-cres[1] < x < hi[1]+cres[1]-1e-9: b.check("sources within a cell's reach are listed", i in got, (cy,cx,i,got))

@bounded(P, ["pixell.pointsrcs.crossmatch"], "catalogues of 0 to 30 sources, also around the poles and the end of RA")
def matching(b):
    from pixell import pointsrcs, utils
    rng = b.rng
    for it in range(b.N(200)):
        tol = 10**rng.uniform(-4,-1); n1, n2 = rng.randint(1,30), rng.randint(1,30); c = np.array([rng.uniform(-3.2,3.2), rng.choice([rng.uniform(-1.5,1.5),1.5,-1.5])])
        mk = lambda n: np.array([np.concatenate([[(c[0]+rng.uniform(-6,6)*tol+2*np.pi*rng.choice([0,1])), np.clip(c[1]+rng.uniform(-6,6)*tol,-np.pi/2,np.pi/2)],[7.0]]) for _ in range(n)]).reshape(n,3)
        A, B2 = mk(n1), mk(n2); b.case(A.tolist(), B2.tolist(), tol); d = ang(A[:,None,1::-1].T.transpose(0,2,1), B2[None,:,1::-1].T.transpose(0,2,1)); m = pointsrcs.crossmatch(A, B2, tol); b.check("pairs", np.ndim(m) == 2 and np.shape(m)[1:] == (2,), np.shape(m))
        got = {int(i): int(j) for i, j in np.reshape(m,(-1,2))}; b.check("at most one match each", len(got) == len(m))
        for i in range(n1):
            if d[i].min() < tol*(1-1e-6): b.check("matched with the closest", i in got and d[i,got[i]] <= d[i].min()+1e-9, (i, got.get(i), d[i].tolist()))
            elif d[i].min() > tol*(1+1e-6): b.check("no match beyond the tolerance", i not in got, i)

@bounded(P, ["pixell.pointsrcs.write_sauron","pixell.pointsrcs.read_sauron","pixell.pointsrcs.write_sauron_fits","pixell.pointsrcs.read_sauron_fits","pixell.pointsrcs.write_sauron_txt","pixell.pointsrcs.read_sauron_txt","pixell.pointsrcs.format_sauron","pixell.pointsrcs.read","pixell.pointsrcs.read_simple","pixell.pointsrcs.read_dory_txt"], "catalogues of 1 to 6 sources with 1 to 3 bands; text to the digits written")
def catalogues(b):
    from pixell import pointsrcs, utils
    rng = b.rng; tmp = tempfile.mkdtemp()
    try:
        for it in range(b.N(40)):
            n, nf = rng.randint(1,6), rng.randint(1,3); dt = [("ra","d"),("dec","d"),("snr","d",(3,)),("flux_tot","d",(3,)),("dflux_tot","d",(3,)),("flux","d",(nf,3)),("dflux","d",(nf,3)),("case","i"),("contam","d",(nf,))]
            cat = np.zeros(n, dt).view(np.recarray); cat.ra = b.nrng.uniform(-np.pi,np.pi,n); cat.dec = b.nrng.uniform(-1.5,1.5,n); cat.case = b.nrng.integers(0,9,n)
            for k in ("snr","flux_tot","dflux_tot","flux","dflux","contam"): cat[k] = b.nrng.uniform(-500,500,cat[k].shape)
            keep = cat.copy(); b.case("sauron", n, nf)
            for ext in ("fits","txt"):
                f = os.path.join(tmp, "cat."+ext); pointsrcs.write_sauron(f, cat); r = pointsrcs.read_sauron(f); b.check("catalogue kept", all(np.array_equal(cat[k],keep[k]) for k in keep.dtype.names)); b.check("number of sources", len(r) == n)
                for k in cat.dtype.names: b.close(ext+": "+k, np.asarray(r[k]), np.asarray(cat[k]), rtol=1e-12, atol=1e-12 if ext == "fits" else (0.6e-4*utils.degree if k in ("ra","dec") else 0.0051))
            ra, dec, I = b.nrng.uniform(-180,180,n), b.nrng.uniform(-90,90,n), b.nrng.uniform(1,9,n); f = os.path.join(tmp,"simple.txt"); np.savetxt(f, np.array([ra,dec,I,I/2])[:rng.choice([3,4])].T); r = pointsrcs.read(f, rng.choice(["simple","auto"]) if n > 1 else "simple")
            b.close("simple: positions in radians", np.array([r.ra,r.dec])/utils.degree, [ra,dec]); b.close("simple: amplitudes", r.I, I)
            f = os.path.join(tmp,"dory.txt"); T = b.nrng.uniform(0,9,(n,8)); T[:,0], T[:,1] = ra, dec; np.savetxt(f, T); r = pointsrcs.read(f, rng.choice(["dory_txt","auto"]))
            b.close("dory: positions in radians", np.array([r.ra,r.dec])/utils.degree, [ra,dec]); b.close("dory: amplitudes", np.array([r.I,r.Q,r.U]), T[:,[3,5,7]].T*1e3)
    finally: shutil.rmtree(tmp)

@external(P, ["srcsim_core.c:floor_div","srcsim_core.c:mod","srcsim_core.c:pix2cell","srcsim_core.c:wrap_box","srcsim_core.c:merge_cell","srcsim_core.c:binary_search","srcsim_core.c:equi_search","srcsim_core.c:evaluate_profile","srcsim_core.c:paint_object","srcsim_core.c:calc_dist"], "all profiles, positions, maps and boxes (the C source; reals for floats)")
def kernel(out, tier):
    from vp import ckern; ckern.objects(out, tier)
