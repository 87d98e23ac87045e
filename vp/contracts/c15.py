"""C15: collections of maps: tiled maps, multimaps and their distribution over tasks."""
import itertools, os
import numpy as np
from vp.core import *
from vp import geo
from vp.contracts.c14 import rgeo
P = "C15"

@contract(P, ["pixell.tilemap.geometry","pixell.tilemap._TileGeomHelper.__getitem__","pixell.tilemap.TileGeometry.ind2grid","pixell.tilemap.TileGeometry.grid2ind","pixell.tilemap.TileGeometry.__init__"], scope="all map and tile sizes with up to 3x3 tiles, all geometries", samples=150, trusted=[geo.WCSLIB])
def tile_grid(c):
    T = c.mod("tilemap"); w = geo.wcs(c); gy, gx = c.choose("gy",[1,2,3]), c.choose("gx",[1,2,3]); ty, tx = c.int("ty", lo=1, sample=(1,4)), c.int("tx", lo=1, sample=(1,4))
    ry, rx = c.int("ry", lo=1, sample=(1,4)), c.int("rx", lo=1, sample=(1,4)); c.assume(ry <= ty, rx <= tx); ny, nx = (gy-1)*ty+ry, (gx-1)*tx+rx
    g = T.geometry((2,ny,nx), w, tile_shape=(ty,tx))
    c.check("number of tiles", And(Eq(g.ntile, gy*gx), Eq(g.grid_shape[0], gy), Eq(g.grid_shape[1], gx))); a, b = c.int("a", lo=0, sample=(0,3)), c.int("b", lo=0, sample=(0,3)); tot = 0
    for i in range(gy*gx):
        y, x = g.ind2grid(i); c.check("grid position", And(Eq(y, i//gx), Eq(x, i%gx), Eq(g.grid2ind(y,x), i))); h, wd = (ry if i//gx == gy-1 else ty), (rx if i%gx == gx-1 else tx)
        c.check("tile size", And(Eq(g.tile_shapes[i][0], h), Eq(g.tile_shapes[i][1], wd), Eq(g.npixs[i], h*wd)))
        t = g.tiles[i]; c.check("tile geometry size", And(len(t.shape) == 3, Eq(t.shape[-2], h), Eq(t.shape[-1], wd))); c.check("tile position", geo.same_sky(c, w, ((i//gx)*ty+a, (i%gx)*tx+b), t.wcs, (a,b)))

@contract(P, ["pixell.tilemap.TileGeometry.ind2grid","pixell.tilemap.TileGeometry.grid2ind","pixell.tilemap._TileGeomHelper.__getitem__"], scope="all map sizes, tile sizes and numbers of tiles", samples=200, trusted=[geo.WCSLIB])
def tile_of_pixel(c):
    """every pixel is in the tile its coordinates name, and in no other"""
    T = c.mod("tilemap"); w = geo.wcs(c); ty, tx = c.choose("ty",[1,2,3,5]), c.choose("tx",[1,2,4]); gy, gx = c.int("gy", lo=1, sample=(1,5)), c.int("gx", lo=1, sample=(1,5)); ry, rx = c.int("ry", lo=1, sample=(1,4)), c.int("rx", lo=1, sample=(1,4)); c.assume(ry <= ty, rx <= tx); ny, nx = (gy-1)*ty+ry, (gx-1)*tx+rx
    g = T.TileGeometry((ny,nx), w, (ty,tx), (gy,gx), None, None, [], None); j, k, a, b = c.int("j", lo=0, sample=(0,4)), c.int("k", lo=0, sample=(0,4)), c.int("a", lo=0, sample=(0,4)), c.int("b", lo=0, sample=(0,3)); c.assume(j < gy, k < gx, a < ty, b < tx); y, x = j*ty+a, k*tx+b; c.assume(y < ny, x < nx)
    i = g.grid2ind(j, k); c.check("index in range", i >= 0)
    if not c.symbolic: c.check("grid and index invert", tuple(g.ind2grid(i)) == (j,k))
    g.ind2grid = lambda q: (j,k)          # the index maps back to its grid position (tile_grid)
    t = g.tiles[i]; c.check("the pixel lies inside", And(a < t.shape[-2], b < t.shape[-1])); c.check("at its place", geo.same_sky(c, w, (y,x), t.wcs, (a,b)))

def perms(n):
    for r in range(n+1): yield from itertools.permutations(range(n), r)
@bounded(P, ["pixell.tilemap.geometry","pixell.tilemap.TileGeometry.copy","pixell.tilemap.TileGeometry.compatible","pixell.tilemap.TileMap.with_tiles","pixell.tilemap.TileMap.__getitem__","pixell.tilemap.TileView.__getitem__","pixell.tilemap.TileView.__setitem__","pixell.tilemap.TileView.__iter__","pixell.tilemap.from_tiles","pixell.tilemap.from_active_tiles","pixell.tilemap.to_enmap","pixell.tilemap.make_binop","pixell.tilemap.insert","pixell.tilemap.map_mul","pixell.tilemap.zeros","pixell.tilemap.full"], "random maps up to 9x9, tiles up to 5x5, random sets and orders of active tiles, up to two leading axes")
def tiles(b):
    from pixell import tilemap, enmap, wcsutils
    rng = b.rng
    for it in range(b.N(200)):
        s, w = rgeo(b); lead = tuple(rng.randint(1,3) for _ in range(rng.randint(0,2))); ts = (rng.randint(1,5),rng.randint(1,5)); m = enmap.ndmap(b.nrng.standard_normal(lead+s), w); ny, nx = -(-s[0]//ts[0]), -(-s[1]//ts[1]); nt = ny*nx
        ra = lambda: rng.sample(range(nt), rng.randint(0,min(nt,4))); act = ra(); b.case(lead+s, ts, act)
        cut = lambda i, q=m: q[...,(i//nx)*ts[0]:(i//nx+1)*ts[0],(i%nx)*ts[1]:(i%nx+1)*ts[1]]
        g = tilemap.geometry(lead+s, w, tile_shape=ts, active=act); b.check("tiles", g.ntile == nt and g.nactive == len(act)); b.check("number of stored pixels", g.size == sum(cut(i).size for i in act))
        for i in range(nt): t = g.tiles[i]; b.check("tile geometry", tuple(t.shape) == cut(i).shape and wcsutils.equal(t.wcs, cut(i).wcs), (i,t)); b.check("lookup", g.lookup[i] == (act.index(i) if i in act else -1)); b.check("tile shape", tuple(g.tile_shapes[i]) == cut(i).shape[-2:])
        tm = tilemap.from_active_tiles([cut(i) for i in act], g); tz = tilemap.from_tiles([cut(i) if i in act else None for i in range(nt)], g)
        def check(name, x, want, act):
            """want: the full map, zero where nothing is stored"""
            b.check(name+": active tiles", sorted(x.active) == sorted(act), (x.active,act)); b.check(name+": stored pixels", x.shape[-1] == sum(cut(i)[...].shape[-1]*cut(i).shape[-2] for i in act))
            for i, t in enumerate(x.tiles):
                if i not in act: b.check(name+": nothing stored", t is None and x.tiles[i] is None)
                else: b.close(name+": tile", np.asarray(t), np.asarray(cut(i,want))); b.check(name+": tile place", wcsutils.equal(t.wcs, cut(i).wcs)); b.close(name+": indexed tile", np.asarray(x.tiles[i]), np.asarray(cut(i,want)))
            for k, t in enumerate(x.active_tiles): b.close(name+": active tile", np.asarray(t), np.asarray(cut(x.active[k],want))); b.close(name+": indexed active tile", np.asarray(x.active_tiles[k]), np.asarray(t))
        def only(q, act):
            r = q*0
            for i in act: cut(i,r)[...] = cut(i,q)
            return r
        if not act: continue
        check("from_active_tiles", tm, m, act); check("from_tiles", tz, m, act); b.check("order", list(tm.active) == act and list(tz.active) == sorted(act)); M = only(m, act); e = tilemap.to_enmap(tm); b.close("to_enmap", np.asarray(e), np.asarray(M)); b.check("full geometry", e.shape == m.shape and wcsutils.equal(e.wcs, w)); b.check("zeros", np.all(tilemap.zeros(g) == 0) and tilemap.zeros(g).shape == tm.shape); b.check("full", np.all(np.asarray(tilemap.full(g,3.5)) == 3.5))
        # arithmetic
        m2 = enmap.ndmap(b.nrng.standard_normal(lead+s), w); act2 = rng.choice([act, act[::-1], ra()]); g2 = g.copy(active=act2)
        if act2:
            t2 = tilemap.from_active_tiles([cut(i,m2) for i in act2], g2); M2 = only(m2, act2); c1, c2 = np.array(tm), np.array(t2); b.case("arithmetic", lead+s, ts, act, act2)
            union = sorted(set(act)|set(act2)); check("sum", tm+t2, M+M2, union); check("difference", tm-t2, M-M2, union); 
            if set(act) == set(act2): check("product", tm*t2, M*M2, act); check("quotient", tm/t2, enmap.ndmap(np.where(np.asarray(M2) != 0, np.asarray(M)/np.where(np.asarray(M2) != 0,np.asarray(M2),1), 0), w), act)
            check("insert", tilemap.insert(tm, t2), enmap.ndmap(np.where(only(m*0+1,act2) > 0, M2, M), w), union); b.eq("operands kept", np.array(tm), c1); b.eq("operands kept ", np.array(t2), c2)
            if set(act2) <= set(act): x = tm.copy(); x += t2; check("in place sum", x, M+M2, act); b.eq("copy is independent", np.array(tm), c1)
            else: b.raises("in place sum cannot add tiles", lambda: tm.copy().__iadd__(t2), ValueError)
            b.check("compatible", g.compatible(g2) == (2 if list(act) == list(act2) else 1)); check("with_tiles", tm.with_tiles(t2), M, union); x = tm.with_tiles(t2, strict=True); check("strict with_tiles", x, only(M,act2), act2); b.check("strict order", list(x.active) == list(act2)); check("with list of tiles", tm.with_tiles(act2), M, union)
        check("with all tiles", tm.with_tiles("all"), M, list(range(nt)))
        b.check("other shapes are incompatible", g.compatible(tilemap.geometry(lead+(s[0]+1,s[1]), w, tile_shape=ts, active=[0])) == 0 and g.compatible(tilemap.geometry(lead+s, w, tile_shape=(ts[0]+1,ts[1]), active=[0])) == 0); w3 = w.deepcopy(); w3.wcs.crval[0] += 5; b.check("other places are incompatible", g.compatible(tilemap.geometry(lead+s, w3, tile_shape=ts, active=act)) == 0)
        check("scalars", (tm*2+1)/3, enmap.ndmap(np.where(only(m*0+1,act) > 0, (M*2+1)/3, 0), w), act); check("from the left", 2*tm, 2*M, act); check("functions", np.exp(tm), enmap.ndmap(np.where(only(m*0+1,act) > 0, np.exp(M), 0), w), act)
        # views
        x = tm.copy(); i = rng.choice(act); x.tiles[i] = 7; mm = M.copy(); cut(i,mm)[...] = 7; check("assigning a tile", x, mm, act); k = rng.randrange(len(act)); x.active_tiles[k] *= 2; q = cut(act[k],mm); q[...] = q*2; check("changing an active tile", x, mm, act); x.tiles[i,...,0,:] = 5; cut(i,mm)[...,0,:] = 5; check("assigning part of a tile", x, mm, act); b.close("part of a tile", np.asarray(x.tiles[i,...,0:1,:]), np.asarray(cut(i,mm)[...,0:1,:]))
        if lead:
            k = rng.randrange(lead[0]); x = tm[k]; b.check("component: shape", x.geometry.shape == lead[1:]+s, x.geometry.shape); b.close("component", np.asarray(tilemap.to_enmap(x)), np.asarray(M[k])); x = tm[:1]; b.close("components", np.asarray(tilemap.to_enmap(x)), np.asarray(M[:1])); tm[k].tiles[act[0]] = 3; b.check("component is a view", np.all(np.asarray(tm.tiles[act[0]])[k] == 3)); b.check("the whole keeps its geometry", tm.geometry.shape == lead+s)
        n = rng.randint(1,3); A = enmap.ndmap(b.nrng.standard_normal((n,n)+s), w); v = enmap.ndmap(b.nrng.standard_normal((n,)+s), w); tA = tilemap.from_active_tiles([cut(i,A) for i in act], g); tv = tilemap.from_active_tiles([cut(i,v) for i in act], g); b.close("map_mul", np.asarray(tilemap.to_enmap(tilemap.map_mul(tA,tv))), only(np.einsum("abyx,byx->ayx",A,v), act))

@bounded(P, ["pixell.tilemap.redistribute","pixell.tilemap.reduce","pixell.tilemap.get_active_distributed","pixell.utils.allgather","pixell.utils.allreduce","pixell.utils.allgatherv","pixell.utils.redistribute","pixell.mpiutils.FakeCommunicator"], "1 to 4 simulated tasks with random ownership, maps up to 9x9")
def distributed(b):
    from pixell import tilemap, enmap, utils, mpiutils
    from vp.simcomm import World
    rng = b.rng
    for it in range(b.N(120)):
        n = rng.randint(1,4); s, w = rgeo(b); lead = tuple(rng.randint(1,3) for _ in range(rng.randint(0,2))); ts = (rng.randint(1,5),rng.randint(1,5)); g0 = tilemap.geometry(lead+s, w, tile_shape=ts); nt = g0.ntile
        own = [rng.sample(range(nt), rng.randint(0,min(nt,4))) for _ in range(n)]; want = [rng.sample(range(nt), rng.randint(0,min(nt,4))) for _ in range(n)]; maps = []; dt = rng.choice([float,np.float32,int]); b.case("tiles", n, lead+s, ts, own, want, dt.__name__)
        for r in range(n): t = tilemap.zeros(g0.copy(active=own[r]), dtype=dt); t[...] = b.nrng.integers(-50,50,t.shape); maps.append(t)
        tot = sum(np.asarray(tilemap.to_enmap(t)) for t in maps); anyown = sorted(set(sum(own,[]))); keep = [np.array(t) for t in maps]
        def full(t): return np.asarray(tilemap.to_enmap(t))
        def only(a, act): r = tilemap.zeros(g0.copy(active=act)); [r.tiles.__setitem__(i, 1) for i in act]; return a*full(r)
        for kind in ("auto","active","omap","reduce"):
            root = rng.randrange(n)
            f = dict(auto=lambda c: tilemap.redistribute(maps[c.rank], c), active=lambda c: tilemap.redistribute(maps[c.rank], c, active=want[c.rank]), omap=lambda c: tilemap.redistribute(maps[c.rank], c, omap=tilemap.full(g0.copy(active=want[c.rank]), 9, dtype=dt)), reduce=lambda c: tilemap.reduce(maps[c.rank], c, root=root))[kind]
            res = World(n).run(f); act = [list(r.active) for r in res]
            if kind == "auto": b.check("every tile exactly once", sorted(sum(act,[])) == anyown, act)
            elif kind == "reduce": b.check("all on the root", all(sorted(act[r]) == (anyown if r == root else []) for r in range(n)), act)
            else: b.check("tiles asked for", act == want, act)
            for r in range(n): b.eq("tiles summed over their owners", full(res[r]), only(tot, act[r])); b.check("type", res[r].dtype == maps[r].dtype)
        b.check("sources kept", all(np.array_equal(np.array(t), k) for t, k in zip(maps, keep)))
        b.check("tiles owned by anybody", all(list(x) == anyown for x in World(n).run(lambda c: tilemap.get_active_distributed(maps[c.rank], c))))
        # arrays
        ax = rng.choice([0,1,-1]); parts = [b.nrng.standard_normal((rng.randint(0,3),2) if ax == 0 else (2,rng.randint(0,3))) for _ in range(n)]; b.case("gather", [p.shape for p in parts], ax)
        for r in World(n).run(lambda c: utils.allgatherv(parts[c.rank], c, axis=ax)):
            if any(p.size for p in parts): b.eq("allgatherv concatenates", r, np.concatenate(parts, ax))
        fl = [b.nrng.random(rng.randint(1,3)) > 0.5 for _ in range(n)]; b.check("allgatherv of flags", all(np.array_equal(r, np.concatenate(fl)) and r.dtype == bool for r in World(n).run(lambda c: utils.allgatherv(fl[c.rank], c))))
        st = [np.array(["ab","cde"][:rng.randint(1,2)]) for _ in range(n)]; b.check("allgatherv of strings", all(list(r) == list(np.concatenate(st)) for r in World(n).run(lambda c: utils.allgatherv(st[c.rank], c))))
        sm = [b.nrng.integers(0,9,3) for _ in range(n)]; b.check("allgather stacks, allreduce sums", all(np.array_equal(r[0], np.array(sm)) and np.array_equal(r[1], sum(sm)) for r in World(n).run(lambda c: (utils.allgather(sm[c.rank], c), utils.allreduce(sm[c.rank], c)))))
        fc = mpiutils.FakeCommunicator(); b.eq("single task: gather", utils.allgatherv(parts[0], fc, axis=ax), parts[0]); b.eq("single task: sum", utils.allreduce(sm[0], fc), sm[0]); b.eq("single task: stack", utils.allgather(sm[0], fc), sm[0][None]); b.eq("single task: tiles", full(tilemap.redistribute(maps[0], fc)), full(maps[0]))
        # pieces of an array
        N, M = rng.randint(3,8), rng.randint(3,9); G = b.nrng.random((2,N,M)); cuts = sorted(rng.sample(range(N+1), rng.randint(2,min(4,N)))); pc = list(zip(cuts[:-1],cuts[1:])); o = [rng.randrange(n) for _ in pc]; ib = [[[[p,q,1],[0,M,1]] for (p,q),k in zip(pc,o) if k == r] or [[[0,0,1],[0,0,1]]] for r in range(n)]
        def rb(k): a = rng.randint(0,k-1); e = rng.randint(a+1,k); st = rng.choice([1,1,2,-1,-2]); return [a,e,st] if st > 0 else [e-1,a-1,st]
        ob = [[[rb(N),rb(M)] for _ in range(rng.randint(1,3))] for r in range(n)]; known = np.zeros_like(G); b.case("pieces", n, ib, ob)
        for p, q in pc: known[:,p:q] = G[:,p:q]
        res = World(n).run(lambda c: utils.redistribute([G[(slice(None),)+tuple(slice(*x) for x in bx)] for bx in ib[c.rank]], np.array(ib[c.rank]), np.array(ob[c.rank]), c))
        for r in range(n):
            for x, q in zip(res[r], ob[r]): b.eq("requested piece", x, known[:,np.arange(*q[0])][:,:,np.arange(*q[1])])

@bounded(P, ["pixell.multimap.multimap","pixell.multimap.ndmaps","pixell.multimap._map_view.__getitem__","pixell.multimap._map_view.__setitem__","pixell.multimap.zeros","pixell.multimap.full","pixell.multimap.empty","pixell.multimap.map_mul","pixell.multimap.posmap","pixell.multimap.pixmap","pixell.multimap.lmap","pixell.multimap.modlmap","pixell.multimap.modrmap","pixell.multimap.fft","pixell.multimap.ifft","pixell.multimap.map2harm","pixell.multimap.harm2map","pixell.multimap.rotate_pol","pixell.multimap.mean","pixell.multimap.pixsizemap","pixell.multimap.pixsize"], "random lists of up to 4 maps up to 9x9 in five projections, up to two leading axes")
def multimaps(b):
    from pixell import enmap, multimap as mu, wcsutils
    rng = b.rng
    for it in range(b.N(120)):
        n = rng.randint(1,4); lead = tuple(rng.randint(1,3) for _ in range(rng.randint(0,2))); geos = [rgeo(b) for _ in range(n)]; gl = [(lead+s,w) for s, w in geos]; maps = [enmap.ndmap(b.nrng.standard_normal(lead+s), w) for s, w in geos]; b.case(lead, geos)
        mm = mu.multimap(maps); b.check("sizes", mm.nmap == n and mm.pre == lead and mm.shape == lead+(sum(s[0]*s[1] for s, w in geos),) and len(mm.maps) == n)
        def same(name, x, want):
            b.check(name+": number", x.nmap == len(want))
            for i, q in enumerate(want): r = x.maps[i]; b.check(name+": shape", r.shape == q.shape, (r.shape,q.shape)); b.close(name+": values", np.asarray(r), np.asarray(q), equal_nan=True) if False else b.check(name+": values", np.allclose(np.asarray(r), np.asarray(q), equal_nan=True)); b.check(name+": place", wcsutils.equal(r.wcs, geos[i][1]))
        same("maps", mm, maps); same("counted from the end", mu.multimap([mm.maps[i-n] for i in range(n)]), maps); same("iteration", mu.multimap([m for m in mm.maps]), maps); same("arithmetic", (mm*2+mm)/4, [(m*2+m)/4 for m in maps]); same("functions", np.exp(mm), [np.exp(m) for m in maps]); x = mm.copy(); k = rng.randrange(n); x.maps[k] = 3; want = [m.copy() for m in maps]; want[k][...] = 3; same("assignment", x, want); same("copy is independent", mm, maps); x.maps[k,...,0,:] = 5; want[k][...,0,:] = 5; same("partial assignment", x, want); b.eq("partial access", np.asarray(x.maps[k,...,1:,:]), np.asarray(want[k][...,1:,:]))
        dt = rng.choice([float,np.float32,int]); z = mu.zeros(gl, dtype=dt); same("zeros", z, [m*0 for m in maps]); b.check("type", z.dtype == dt and mu.empty(gl, dtype=dt).dtype == dt and mu.empty(gl).shape == mm.shape); same("full", mu.full(gl, 2.5), [m*0+2.5 for m in maps]); v = b.nrng.standard_normal(n); same("one value per map", mu.full(gl, v), [m*0+v[i] for i, m in enumerate(maps)]); v = b.nrng.standard_normal(lead+(n,)); same("one value per map and component", mu.full(gl, v), [m*0+v[...,i][...,None,None] for i, m in enumerate(maps)])
        same("posmap", mu.posmap(geos), [enmap.posmap(*g) for g in geos]); same("posmap method", mm.posmap(), [enmap.posmap(*g) for g in geos]); same("unsafe posmap", mm.posmap(safe=False), [enmap.posmap(*g, safe=False) for g in geos]); same("pixmap", mm.pixmap(), [enmap.pixmap(*g) for g in geos]); same("lmap", mu.lmap(geos), [enmap.lmap(*g) for g in geos]); same("modlmap", mu.modlmap(geos), [enmap.modlmap(*g) for g in geos]); same("lmap method", mm.lmap(), [enmap.lmap(*g) for g in geos]); same("modlmap method", mm.modlmap(), [enmap.modlmap(*g) for g in geos]); same("modrmap", mm.modrmap(), [enmap.modrmap(*g) for g in geos]); b.close("pixsize", mm.pixsize(), [enmap.pixsize(*g) for g in geos]); same("pixsizemap", mu.pixsizemap(geos), [enmap.pixsizemap(*g) for g in geos])
        for f in ("mean","median","max","min","var","std"): b.close(f, getattr(mu,f)(mm), np.array([getattr(np,f)(np.asarray(m),(-2,-1)) for m in maps]))
        nrm = rng.choice([True,False,"phys"]); F = mu.fft(mm, normalize=nrm); same("fft", F, [enmap.fft(m, normalize=nrm) for m in maps]); same("ifft", mu.ifft(F, normalize=nrm), [enmap.ifft(enmap.fft(m, normalize=nrm), normalize=nrm) for m in maps])
        q = [enmap.ndmap(b.nrng.standard_normal((3,)+s), w) for s, w in geos]; Q = mu.multimap(q); same("map2harm", mu.map2harm(Q), [enmap.map2harm(m) for m in q]); same("harm2map", mu.harm2map(mu.map2harm(Q)), [enmap.harm2map(enmap.map2harm(m)) for m in q]); a = rng.uniform(-3,3); same("rotate_pol", mu.rotate_pol(Q, a), [enmap.rotate_pol(m, a) for m in q]); same("argument kept", Q, q)
        C = mu.multimap([enmap.ndmap(m+1j*b.nrng.standard_normal(m.shape), m.wcs) for m in q]); qc = [m for m in C.maps]; ia, nb = rng.choice([True,False]), rng.choice([True,False])
        for nm, arg, kw in [] if it % 3 else [("fft",Q,{}),("ifft",C,{}),("fft_adjoint",C,{}),("ifft_adjoint",C,{}),("dct",Q,{}),("idct",Q,{}),("dct_adjoint",Q,{}),("idct_adjoint",Q,{}),("fft",C,dict(normalize=nb)),("fft_adjoint",C,dict(normalize=nb)),("ifft_adjoint",C,dict(normalize=nb)),("dct",Q,dict(normalize=nb)),("idct_adjoint",Q,dict(normalize=nb)),("map2harm",Q,dict(iau=ia)),("map2harm",Q,dict(spin=[0])),("harm2map",C,dict(iau=ia,spin=0)),("harm2map",C,dict(keep_imag=True)),("map2harm_adjoint",C,dict(normalize=nb)),("map2harm_adjoint",C,dict(keep_imag=True)),("harm2map_adjoint",Q,dict(iau=ia)),("map2harm",Q,dict(normalize=nb)),("harm2map",C,dict(normalize=nb))]:
            x = getattr(mu,nm)(arg, **kw); b.case(nm, kw); same(nm, x, [getattr(enmap,nm)(m, **kw) for m in arg.maps])
        for nm, kw in [("lmap",dict(oversample=2)),("modlmap",dict(oversample=2)),("lmap",dict(dtype=np.float32)),("modlmap",dict(dtype=np.float32))]:
            x = getattr(mu,nm)(geos, **kw); b.check(nm+" type", x.dtype == kw.get("dtype", np.float64)); same(nm, x, [getattr(enmap,nm)(*g, **{k:v for k,v in kw.items() if k != "dtype"}) for g in geos])
        ang = rng.uniform(-3,3); same("rotate_pol", mu.rotate_pol(Q, ang), [enmap.rotate_pol(m, ang) for m in q]); same("rotate_pol components", mu.rotate_pol(Q, ang, comps=[0,1]), [enmap.rotate_pol(m, ang, comps=[0,1]) for m in q])
        L2 = mu.lmap(geos); same("queb_rotmat", mu.queb_rotmat(L2, inverse=ia, iau=nb), [enmap.queb_rotmat(m, inverse=ia, iau=nb) for m in L2.maps])
        A = [enmap.ndmap(b.nrng.standard_normal((3,3)+s), w) for s, w in geos]; same("map_mul", mu.map_mul(mu.multimap(A), Q), [enmap.map_mul(x, y) for x, y in zip(A,q)])

@bounded(P, ["pixell.multimap.ndmaps.%s" % n for n in "posmap pixmap pixsize lmap modlmap modrmap".split()], "the methods of these functions: every argument, and the defaults")
def methods_stand_for_functions(b):
    from pixell import enmap, multimap
    from vp.forward import forwarding
    w = geo.real_wcs("car", [3.0,2.0], [-10.0,10.0], [0.0,0.0])
    mm = multimap.multimap([enmap.ndmap(np.arange(20.0).reshape(4,5), w), enmap.ndmap(np.arange(6.0).reshape(2,3), w)])
    forwarding(b, mm, multimap.ndmaps, multimap, "posmap pixmap pixsize lmap modlmap modrmap".split())
