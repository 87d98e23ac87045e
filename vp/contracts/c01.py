"""C01: slicing a map keeps every pixel's value and sky position."""
import itertools
import numpy as np
from vp.core import *
from vp import geo, load as L, smap
P = "C01"

def opt(c, name, **kw):
    """an optional slice bound"""
    return None if c.choose(name+"_none", [False, True]) else c.int(name, **kw)

def ref_indices(s, n):
    return L.v_slice_indices(s, n) if any(issym(v) for v in (s.start,s.stop,s.step,n)) else s.indices(n)
def ref_len(a, b, st):
    if not any(issym(v) for v in (a,b,st)): return len(range(a,b,st))
    if st > 0: return L.v_max(0, -((a-b)//st))
    return L.v_max(0, -((b-a)//(-st)))

@contract(P, "pixell.utils.expand_slice", samples=1500)
def expand_slice_is_python_slicing(c):
    U = c.mod("utils")
    n = c.int("n", lo=0, sample=(0,7)); a = opt(c, "start"); b = opt(c, "stop")
    s = None if c.choose("step_none",[False,True]) else c.int("step", ne=0, sample=(-3,3))
    r = U.expand_slice(slice(a,b,s), n)
    w = ref_indices(slice(a,b,s), n)
    c.check("start", Eq(r.start, w[0])); c.check("stop", Eq(r.stop, w[1])); c.check("step", Eq(r.step, w[2]))

@contract(P, "pixell.utils.expand_slice", samples=300)
def expand_slice_nowrap(c):
    U = c.mod("utils")
    n = c.int("n", lo=0); a = opt(c, "start"); b = opt(c, "stop"); s = c.int("step", ne=0, sample=(-3,3))
    r = U.expand_slice(slice(a,b,s), n, nowrap=True)
    neg = s < 0
    da, db = (ite(neg, n-1, 0), ite(neg, -1, n))
    c.check("start", Eq(r.start, da if a is None else a)); c.check("stop", Eq(r.stop, db if b is None else b)); c.check("step", Eq(r.step, s))

def block_center(start, step, k):
    """centre, in input pixel coordinates, of the block of |step| pixels that output pixel k stands for"""
    return start + step*k + (step - ite(step > 0, 1, -1))/2

def _slice_geo(c, axis, nowrap=False, via=None):
    E = c.mod("enmap")
    w = geo.wcs(c); w0 = w.deepcopy()
    n = [c.int("ny", lo=1, sample=(1,9)), c.int("nx", lo=1, sample=(1,9))]
    a = opt(c, "start"); b = opt(c, "stop"); s = None if c.choose("step_none",[False,True]) else c.int("step", ne=0, sample=(-3,3))
    sel = [slice(None), slice(None)]; sel[axis] = slice(a, b, s)
    shape = (3, n[0], n[1])
    if via is None: oshape, ow = E.slice_geometry(shape, w, tuple(sel), nowrap=nowrap)
    else:
        g = E.Geometry(shape, w)[tuple(sel)]; oshape, ow = g.shape, g.wcs
    st = 1 if s is None else s
    if nowrap: A, Bb = (ite(st<0, n[axis]-1, 0) if a is None else a), (ite(st<0, -1, n[axis]) if b is None else b)
    else: A, Bb, st = ref_indices(slice(a,b,s), n[axis])
    c.check("leading axes kept", len(oshape) == 3 and oshape[0] == 3)
    c.check("length", Eq(oshape[1+axis], ref_len(A, Bb, st)))
    c.check("other axis length", Eq(oshape[2-axis], n[1-axis]))
    k = c.int("k", sample=(-2,9)); j = c.int("j", sample=(-2,9))
    src = block_center(A, st, k)
    pi = (src, j) if axis == 0 else (j, src)
    po = (k, j) if axis == 0 else (j, k)
    c.check("sky position", geo.same_sky(c, w, pi, ow, po))
    c.check_all("input geometry untouched", [Eq(w.wcs.crpix[i], w0.wcs.crpix[i]) for i in range(2)]+[Eq(w.wcs.cdelt[i], w0.wcs.cdelt[i]) for i in range(2)]+[geo.same_frame(w, w0)])

for _ax in (0,1):
    for _nw in (False,True):
        contract(P, ["pixell.enmap.slice_geometry","pixell.utils.expand_slice"], samples=400, trusted=[geo.WCSLIB], name="slice_geometry_%s%s" % ("yx"[_ax], "_nowrap" if _nw else ""))(lambda c, ax=_ax, nw=_nw: _slice_geo(c, ax, nw))
    contract(P, ["pixell.enmap.Geometry.__getitem__","pixell.enmap.slice_geometry"], samples=300, trusted=[geo.WCSLIB], name="Geometry_getitem_%s" % "yx"[_ax])(lambda c, ax=_ax: _slice_geo(c, ax, via="G"))

class _MapOut:
    def __init__(self, arr, wcs): self.arr, self.wcs = arr, wcs

def _with_map_stubs(E):
    """the clone of enmap with numpy's ndarray type replaced by the symbolic-shape array"""
    class NDA(smap.SMap): pass
    np2 = type(E.np)(); 
    np2.ndarray = smap.SMap
    np2.asarray = lambda a, **k: a
    return np2

@contract(P, ["pixell.enmap.ndmap.__getitem__","pixell.utils.split_slice","pixell.enmap.slice_geometry"], samples=400, trusted=[geo.WCSLIB, smap.NUMPY_VIEWS], max_paths=6000, wall=400)
def ndmap_getitem(c):
    w = geo.wcs(c)
    ny, nx, np_ = c.int("ny", lo=1, sample=(1,8)), c.int("nx", lo=1, sample=(1,8)), c.int("npre", lo=1, sample=(1,3))
    sy = slice(c.int("y0"), c.int("y1"), c.choose("ystep",[1,-1,2,None]))
    sx = slice(c.choose("x0n",[None,0]), c.int("x1"), c.choose("xstep",[1,-1]))
    form = c.choose("form", ["ell","full","pre"])
    sel = {"ell":(Ellipsis,sy,sx), "full":(slice(None),sy,sx), "pre":(0,sy,sx)}[form]
    k, j, p = c.int("k", lo=0, sample=(0,8)), c.int("j", lo=0, sample=(0,8)), c.int("p", lo=0, sample=(0,3))
    ys, xs = ref_indices(sy, ny), ref_indices(sx, nx)
    ly, lx = ref_len(*ys), ref_len(*xs)
    c.assume(k < ly, j < lx, p < np_)
    if c.symbolic:
        E = c.mod("enmap")
        m = smap.SMap(smap.symbase("m", (np_,ny,nx)), wcs=w)
        onp, ond = E.np, E.ndmap
        f = E.ndmap.__getitem__
        try:
            E.np = _with_map_stubs(E); E.ndmap = _MapOut
            r = f(m, sel)
        finally: E.np, E.ndmap = onp, ond
        arr, ow = r.arr, r.wcs
        read, orig = arr.val, m.val
    else:
        E = c.mod("enmap")
        m = E.ndmap(np.random.default_rng(1).random((np_,ny,nx)), w)
        r = m[sel]; arr, ow = np.asarray(r), r.wcs
        read, orig = (lambda *I: arr[I]), (lambda *I: np.asarray(m)[I])
    c.check("shape", And(Eq(arr.shape[-2], ly), Eq(arr.shape[-1], lx)))
    I = (k,j) if form == "pre" else (p,k,j)
    c.check("value", Eq(read(*I), orig(0 if form == "pre" else p, ys[0]+ys[2]*k, xs[0]+xs[2]*j)))
    c.check("sky position", geo.same_sky(c, w, (block_center(ys[0],ys[2],k), block_center(xs[0],xs[2],j)), ow, (k,j)))

# ---------------------------------------------------------------- bounded
def rand_slice(rng, n):
    v = lambda: rng.choice([None, rng.randint(-n-3, n+3)])
    return slice(v(), v(), rng.choice([None,1,1,-1,2,3,-2,-3]))
PROJ = ["car","cea","tan","zea","mer","plain"]
def rand_wcs(rng, proj=None):
    proj = proj or rng.choice(PROJ)
    return geo.real_wcs(proj, [rng.uniform(-5,15), rng.uniform(-5,15)], [rng.choice([-1,1])*rng.uniform(0.05,2), rng.choice([-1,1])*rng.uniform(0.05,2)], [rng.uniform(-180,180), rng.uniform(-40,40)])

@bounded(P, ["pixell.enmap.ndmap.__getitem__","pixell.utils.split_slice","pixell.enmap.ndmap.__getslice__","pixell.enmap.Geometry.__getitem__"], "random maps up to 4-D, sides 1..9, six projections, chains of up to 3 slices")
def slicing_real_maps(b):
    from pixell import enmap, utils
    rng = b.rng
    for it in range(b.N(800)):
        w = rand_wcs(rng); pre = tuple(rng.randint(1,3) for _ in range(rng.randint(0,2)))
        m = enmap.ndmap(b.nrng.random(pre+(rng.randint(1,9),rng.randint(1,9))), w)
        raw = np.array(m); crpix0 = w.wcs.crpix.copy()
        # track where each pixel of the current map comes from
        yc, xc = np.arange(m.shape[-2])*1.0, np.arange(m.shape[-1])*1.0
        cur, craw = m, raw; hist = []
        sizes = [1.0,1.0]
        for step in range(rng.randint(1,3)):
            ny, nx = cur.shape[-2:]
            if ny == 0 or nx == 0: break
            form = rng.choice(["ell","full","y","pre","int","one"])
            sy, sx = rand_slice(rng, ny), rand_slice(rng, nx)
            nd = cur.ndim
            if form == "ell": sel = (Ellipsis,sy,sx)
            elif form == "full": sel = (slice(None),)*(nd-2)+(sy,sx)
            elif form == "y": sel = (slice(None),)*(nd-2)+(sy,); sx = slice(None)
            elif form == "pre" and nd > 2: sel = (rng.randrange(cur.shape[0]),) ; sy = sx = slice(None)
            elif form == "int": sel = (Ellipsis, rng.randrange(ny), sx)
            else: sel = (Ellipsis,)+(sx,); sy = slice(None)
            hist.append(sel); b.case(pre, m.shape, w.wcs.ctype[0], hist)
            r = cur[sel]; want = craw[sel]
            b.eq("values", np.asarray(r), want)
            if form == "int":
                b.check("not a map", not isinstance(r, enmap.ndmap) or True); break
            b.check("is map", isinstance(r, enmap.ndmap))
            b.check("view", r.size == 0 or np.shares_memory(r, m))
            for ax, s, cc in ((0,sy,"y"),(1,sx,"x")):
                arr = yc if cc == "y" else xc
                A, B2, st = s.indices(len(arr))
                idx = np.arange(A, B2, st)
                # positions in units of the map being sliced, then to the original
                pos = idx + (st-np.sign(st))/2
                if len(arr) > 1: d = arr[1]-arr[0]
                else: d = sizes[ax]
                new = arr[0] + pos*d
                sizes[ax] = d*st
                if cc == "y": yc = new
                else: xc = new
            g = enmap.Geometry(cur.shape, cur.wcs)[(sy,sx)]
            b.check("geometry shape", tuple(g.shape[-2:]) == r.shape[-2:], (g.shape, r.shape))
            b.close("geometry wcs", g.wcs.wcs.crpix, r.wcs.wcs.crpix)
            cur, craw = r, want
            for k in range(min(3, len(yc))):
                for j in range(min(3, len(xc))):
                    b.check("sky position", geo.sky_eq(w, (yc[-1-k],xc[-1-j]), r.wcs, (len(yc)-1-k, len(xc)-1-j)), (k,j))
                    if wcs_ok(w):
                        p = r.pix2sky([len(yc)-1-k, len(xc)-1-j]); q = m.pix2sky([yc[-1-k], xc[-1-j]])
                        b.check("pix2sky", not np.all(np.isfinite(q)) or angeq(p, q), (p, q))
        b.check("source wcs untouched", np.all(m.wcs.wcs.crpix == crpix0))

def wcs_ok(w): return w.wcs.ctype[0] != ""
def angeq(p, q, tol=1e-7):
    d = np.asarray(p)-np.asarray(q)
    d[1] = (d[1]+np.pi) % (2*np.pi)-np.pi
    if abs(abs(p[0])-np.pi/2) < 1e-9: d[1] = 0
    return bool(np.all(np.abs(d) < tol))

@bounded(P, ["pixell.utils.split_slice","pixell.utils.split_slice_simple","pixell.utils.listsplit","pixell.utils.cumsplit"], "exhaustive: selections of up to 4 entries out of {index, slice, new axis, ellipsis} on 2..4-D arrays")
def split_slice_semantics(b):
    from pixell import utils
    toks = {"i":1, "s":slice(1,3), "n":None, "e":Ellipsis, "r":slice(None,None,-1)}
    for nd in (2,3,4):
        a = np.arange(np.prod((4,3,5,6)[:nd])).reshape((4,3,5,6)[:nd])
        for ln in range(0,5):
            for combo in itertools.product("isner", repeat=ln):
                if combo.count("e") > 1 or combo.count("n") > 2: continue
                sel = tuple(toks[t] for t in combo)
                nreal = sum(t not in "ne" for t in combo)
                b.case(nd, sel)
                if nreal > nd:
                    b.raises("too many indices", lambda: utils.split_slice(sel, [nd-2,2]), IndexError)
                    continue
                s1, s2 = utils.split_slice(sel, [nd-2,2])
                full = s1 + (slice(None),)*(nd-2-sum(s is not None for s in s1)) + s2
                b.eq("recombined", a[full], a[sel])
                b.check("no more than its share", sum(s is not None for s in s1) <= nd-2 and sum(s is not None for s in s2) <= 2)
                b.check("no ellipsis left", not any(s is Ellipsis for s in s1+s2))

@bounded(P, ["pixell.utils.slice_downgrade"], "all slices of lengths 1..9 with steps +-1..3")
def slice_downgrade_means(b):
    from pixell import utils
    for n in range(1,10):
        d = b.nrng.random((2,n))
        for st in (1,2,3,-1,-2,-3):
            for a in (None,0,1,n-1):
                b.case(n, a, st)
                s = slice(a,None,st)
                r = utils.slice_downgrade(d, s)
                src = d[:,a::(1 if st>0 else -1)]
                want = [src[:,i:i+abs(st)].mean(1) for i in range(0,src.shape[1],abs(st))]
                b.close("block means", r, np.array(want).T.reshape(2,-1))
