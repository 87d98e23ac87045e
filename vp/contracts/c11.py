"""C11: spectra, matrix powers and random fields."""
import itertools
import numpy as np
from vp.core import *
from vp import geo, npshim, sym
P = "C11"
EIGH = "numpy.linalg.eigh: A = V diag(E) V^T with V orthogonal"
INV = "numpy.linalg.inv: the inverse matrix"

def close(a, b, tol): return Eq(a, b) if issym(a) or issym(b) else bool(abs(a-b) <= tol*(1+abs(b)))
class NPL:
    """numpy with linalg's functions given by their contracts"""
    def __init__(self, base, **k):
        class LA: pass
        self._b = base; self.linalg = LA(); self.linalg.__dict__.update(k)
    def __getattr__(self, k): return getattr(self._b, k)
def symmat(c, n, pre=()):
    """a stack of symmetric matrices with arbitrary entries"""
    r = npshim.full(pre+(n,n), 0) if c.symbolic else np.zeros(pre+(n,n))
    for I in np.ndindex(*pre):
        for i in range(n):
            for j in range(i, n):
                v = c.real("a%s_%d%d" % ("".join(map(str,I)),i,j), sample=(-4,4)); r[I+(i,j)] = v; r[I+(j,i)] = v
    return r
def reals(c, name, shape, **k):
    r = npshim.full(shape, 0) if c.symbolic else np.zeros(shape)
    for I in np.ndindex(*shape): r[I] = c.real(name+"_".join(map(str,I)), **(k or dict(sample=(-4,4))))
    return r

ORDER = {"stable": "00 11 01 22 02 12 33 03 13 23", "diag": {1:"00",2:"00 11 01",3:"00 11 22 01 12 02",4:"00 11 22 33 01 12 23 02 13 03"}, "row": {1:"00",2:"00 01 11",3:"00 01 02 11 12 22",4:"00 01 02 03 11 12 13 22 23 33"}}
def order(n, scheme):
    o = ORDER[scheme]; return [[int(x[0]),int(x[1])] for x in (o if isinstance(o,str) else o[n]).split()][:n*(n+1)//2]

for scheme in ("stable","diag","row"):
  for axes in ((0,1),(1,2)):
    @contract(P, ["pixell.powspec.sym_compress","pixell.powspec.sym_expand","pixell.powspec.compressed_order"], name="compress_%s_%d" % (scheme,axes[0]), scope="all values; 1 to 4 components, scheme %s, matrix axes %s" % (scheme,axes), samples=60)
    def compress(c, scheme=scheme, axes=axes):
        W = c.mod("powspec"); n = c.choose("n",[1,2,3,4]); comb = c.choose("combined",[False,True])
        m = symmat(c, n, (2,)); A = np.moveaxis(m, (1,2), axes)
        if axes == (0,1): A = np.moveaxis(m, 0, -1)
        z = W.sym_compress(A, scheme=scheme, axes=list(axes), combined=comb); Z = np.moveaxis(z, axes[0], 0)
        c.check("number of elements", Z.shape == (n*(n+1)//2, 2))
        for k, (i,j) in enumerate(order(n, scheme)):
            for t in range(2): c.check("documented order", Eq(Z[k,t], (2 if comb and i != j else 1)*m[t,i,j]))
        e = W.sym_expand(z, scheme=scheme, axis=axes[0], combined=comb)
        c.check("shape back", e.shape == A.shape)
        for I in np.ndindex(*A.shape): c.check("expand undoes compress", Eq(e[I], A[I]))

@contract(P, ["pixell.enmap.map_mul"], scope="all values; 1 to 3 components, 2 pixels, with and without leading axes", samples=60)
def matrix_product(c):
    E = c.mod("enmap"); n = c.choose("n",[1,2,3]); pre = c.choose("pre",[(),(2,)])
    M = reals(c, "m", pre+(n,n,1,2)); v = reals(c, "v", pre+(n,1,2)); r = E.map_mul(M, v)
    c.check("shape", r.shape == v.shape)
    for I in np.ndindex(*pre):
        for a in range(n):
            for x in range(2): c.check("matrix times vector in every pixel", close(r[I+(a,0,x)], sum(M[I+(a,b,0,x)]*v[I+(b,0,x)] for b in range(n)), 1e-9))
    s = reals(c, "s", (1,2)); q = E.map_mul(s, v)
    for I in np.ndindex(*v.shape): c.check("scalar product", Eq(q[I], s[I[-2:]]*v[I]))

@contract(P, ["pixell.enmap.massage_spectrum"], scope="all values; 1 to 3 components", samples=60)
def fit_spectrum(c):
    E = c.mod("enmap"); n = c.choose("n",[0,1,2,3]); k = c.choose("k",[0,1,2,3,4])
    cov = reals(c, "p", ((n,n,2) if n else (2,))); r = E.massage_spectrum(cov, ((k,) if k else ())+(5,6)); C = cov if n else cov[None,None]
    if not k: [c.check("first spectrum", Eq(r[l], C[0,0,l])) for l in range(2)]; c.check("shape", r.shape == (2,)); return
    c.check("shape", r.shape == (k,k,2))
    for i,j,l in np.ndindex(k,k,2): c.check("cut or padded with zeros", Eq(r[i,j,l], C[i,j,l] if max(i,j) < C.shape[0] else 0))

@contract(P, ["pixell.utils.eigpow","pixell.enmap.multi_pow","pixell.utils.partial_flatten","pixell.utils.partial_expand"], scope="all symmetric 2x2 matrices (alone, stacked along any axes), powers 1/2, -1/2, -1, 2, 3 (stacks: -1) with the default limits", samples=80, trusted=[EIGH], wall=200)
def matrix_power(c):
    U = c.mod("utils"); n = 2; e = c.choose("e",[0.5,-0.5,-1,2,3]); lay = c.choose("axes",["alone","first","two"])
    if lay != "alone" and e != -1 and c.symbolic: return
    pre = dict(alone=(),first=(2,),two=(2,1))[lay]
    lam = reals(c, "E", pre+(n,)); V = reals(c, "V", pre+(n,n))
    if not c.symbolic:
        for I in np.ndindex(*pre): V[I] = np.linalg.qr(V[I]+3*np.eye(n))[0]; lam[I] = np.sort(np.round(lam[I]))
        A = np.einsum("...ij,...j,...kj->...ik", V, lam, V)
    else:
        A = reals(c, "A", pre+(n,n))
    def eigh(a):
        for I in np.ndindex(*(pre if lay != "first" else (2,))): c.check("the matrices are decomposed", And(*[Eq(a.reshape(pre+(n,n))[I][i,j], A[I][i,j]) for i in range(n) for j in range(n)]))
        return lam.reshape(a.shape[:-1]).copy(), V.reshape(a.shape).copy()
    def power(v, p): return v**(p if p != -1 else -1.0)
    B = np.moveaxis(A, (-2,-1), (0,1)) if lay == "first" else A; axes = [0,1] if lay == "first" else [-2,-1]
    if c.symbolic:
        with stub(c, U, np=NPL(U.np, eigh=eigh)): r = U.eigpow(B, e, axes=axes)
    else: r = U.eigpow(B, e, axes=axes)
    c.check("shape", r.shape == B.shape); r = np.moveaxis(r, (0,1), (-2,-1)) if lay == "first" else r
    rl, al = np.finfo(float).resolution*100, np.finfo(float).tiny*1e4
    for I in np.ndindex(*pre):
        f = []; big = npshim.e_max(abs(lam[I][0]), abs(lam[I][1]))
        for k in range(n):
            v = lam[I][k]; drop = False
            if e != int(e): drop = Or(drop, v < 0)
            if e < 0: drop = Or(drop, abs(v) < big*rl, abs(v) < al)
            f.append(0 if drop else power(v, e))
        for i,j in np.ndindex(n,n): c.check("eigenvalues raised to the power, negative and tiny ones dropped", close(r[I][i,j], sum(V[I][i,k]*f[k]*V[I][j,k] for k in range(n)), 1e-7))

def adj(c, m):
    """inverse by cofactors (the contract of numpy.linalg.inv)"""
    n = len(m)
    if n == 1: return [[1/m[0,0]]]
    cof = lambda i,j: (-1)**(i+j)*det([[m[a,b] for b in range(n) if b != j] for a in range(n) if a != i])
    d = det([[m[a,b] for b in range(n)] for a in range(n)]); c.assume(Not(Eq(d, 0)))
    return [[cof(j,i)/d for j in range(n)] for i in range(n)]
def det(r): return r[0][0] if len(r) == 1 else sum((-1)**j*r[0][j]*det([q[:j]+q[j+1:] for q in r[1:]]) for j in range(len(r)))

@contract(P, ["pixell.utils.build_conditional"], scope="all positive definite 2x2 covariances (3x3 on samples), every set of known variables, matrix axes first or last", samples=80, trusted=[INV], wall=200)
def conditional(c):
    U = c.mod("utils"); n = c.choose("n",[2,3]); known = c.choose("known",[(0,),(1,),(2,),(0,1),(0,2),(1,2)]); first = c.choose("first",[True,False])
    if max(known) >= n or len(known) >= n or (c.symbolic and n == 3): return
    C = symmat(c, n, (1,))
    if not c.symbolic: C[0] = C[0].dot(C[0].T)+np.eye(n)
    def inv(a): return np.array([adj(c, m) for m in a]) if len(a) else a
    B = np.moveaxis(C, (1,2), (0,1)) if first else C; ax = [0,1] if first else [-2,-1]
    if c.symbolic:
        for s in [q for r in range(1,n+1) for q in itertools.combinations(range(n), r)]: c.assume(det([[C[0,i,j] for j in s] for i in s]) > 0)     # positive definite: its principal minors
        with stub(c, U, np=NPL(U.np, inv=inv)): A, cov = U.build_conditional(B, list(known), axes=ax)
    else: A, cov = U.build_conditional(B, list(known), axes=ax)
    u = [i for i in range(n) if i not in known]; k = list(known); m = C[0]
    c.check("shapes", (A.shape, cov.shape) == (((len(u),len(k),1),(len(u),len(u),1)) if first else ((1,len(u),len(k)),(1,len(u),len(u)))))
    if first: A, cov = np.moveaxis(A,-1,0), np.moveaxis(cov,-1,0)
    A, cov = A[0], cov[0]
    for i in range(len(u)):
        for j in range(len(k)): c.check("A times known covariance is the cross-covariance", close(sum(A[i,q]*m[k[q],k[j]] for q in range(len(k))), m[u[i],k[j]], 1e-7))
        for j in range(len(u)): c.check("conditional covariance", close(cov[i,j], m[u[i],u[j]]-sum(A[i,q]*m[k[q],u[j]] for q in range(len(k))), 1e-7))

# ---- bounded
def rmap(b, lead=(), cplx=False):
    from pixell import enmap, utils
    rng = b.rng; s = (rng.randint(2,7), rng.randint(2,7)); d = rng.uniform(-40,40)
    kind = rng.choice(["car","plain","tan"])
    if kind == "plain":
        from pixell import wcsutils; w = wcsutils.explicit(crval=[0,0], cdelt=[rng.choice([-1,1])*rng.uniform(.2,2), rng.uniform(.2,2)], crpix=[rng.uniform(0,4),rng.uniform(0,4)], ctype=["",""])
    else: s, w = enmap.geometry(pos=(d*utils.degree, rng.uniform(-3,3)), shape=s, res=rng.uniform(.2,2)*utils.degree, proj=kind)
    m = b.nrng.standard_normal(lead+tuple(s)); m = m+1j*b.nrng.standard_normal(m.shape) if cplx else m
    return enmap.ndmap(m, w)
def spd(b, n, tail):
    R = b.nrng.standard_normal((n,n)+tail); return np.einsum("ab...,cb...->ac...", R, R)+0.3*np.eye(n).reshape((n,n)+(1,)*len(tail))

@bounded(P, ["pixell.utils.eigpow","pixell.utils.solve","pixell.enmap.multi_pow","pixell.utils.build_conditional","pixell.utils.partial_flatten","pixell.utils.partial_expand","pixell.utils.cov2corr","pixell.utils.corr2cov","pixell.utils.eigsort"], "random stacks of matrices up to 4x4, any axes, both precisions")
def matrices(b):
    from pixell import utils, enmap, wcsutils
    rng = b.rng
    for it in range(b.N(300)):
        n = rng.randint(1,4); pre = tuple(rng.randint(1,3) for _ in range(rng.randint(0,3))); nd = len(pre)+2; dt = rng.choice([np.float64,np.float64,np.float32])
        S = np.moveaxis(spd(b, n, pre), (0,1), (-2,-1)); scale = 10.0**b.nrng.integers(-6,7,pre) if dt == np.float64 else np.ones(pre); S = S*scale[...,None,None]
        ax = rng.sample(range(nd), 2); neg = rng.random() < 0.5; axes = [a-nd if neg else a for a in ax]
        A = np.moveaxis(S, (-2,-1), ax).astype(dt); A0 = A.copy(); tol = 1e-3 if dt == np.float32 else 1e-7
        back = lambda X: np.moveaxis(X, ax, (-2,-1))
        b.case(n, pre, ax, dt.__name__)
        def rel(name, X, Y): b.check(name, X.shape == Y.shape and np.all(np.abs(X-Y) <= tol*(np.max(np.abs(Y), (-2,-1), keepdims=True)+1e-30)), (np.max(np.abs(X-Y)),))
        for e in (1,2,3): 
            M = S
            for _ in range(e-1): M = M@S
            rel("positive powers", back(utils.eigpow(A, e, axes=axes)), M)
        h = back(utils.eigpow(A, 0.5, axes=axes)); rel("square root squared", h@h, S)
        i = back(utils.eigpow(A, -1, axes=axes)); rel("inverse", i@S, np.broadcast_to(np.eye(n), S.shape))
        ih = back(utils.eigpow(A, -0.5, axes=axes)); rel("inverse square root", ih@ih@S, np.broadcast_to(np.eye(n), S.shape)); b.eq("input kept", A, A0)
        if nd > 2 and dt == np.float64:
            w = wcsutils.explicit(crval=[1,2], cdelt=[1,1], crpix=[3,4]); m = enmap.ndmap(A, w) if nd > 3 else A
            r = enmap.multi_pow(m, 0.5, axes=axes); b.eq("multi_pow", np.asarray(r), utils.eigpow(A, 0.5, axes=axes))
            if nd > 3: b.check("multi_pow keeps the geometry", getattr(r, "wcs", None) is not None and wcsutils.equal(r.wcs, w))
        # singular and indefinite matrices
        Q = np.linalg.qr(b.nrng.standard_normal((n,n)))[0]; lam = np.array([rng.choice([0,0,-1.5,2,1e-20,3.5]) for _ in range(n)],float); lam[np.abs(lam) < 1e-19] *= np.max(np.abs(lam)) > 1; M = (Q*lam)@Q.T; M = (M+M.T)/2
        for e in (0.5,-0.5,-1):
            keep = (np.abs(lam) > 1e-12) & (np.abs(lam) >= (1e-13*np.max(np.abs(lam)) if e < 0 else 0)) & ((lam > 0) | (e == -1)); f = np.zeros(n); f[keep] = (lam[keep] if e == -1 else np.abs(lam[keep]))**e
            with np.errstate(all="ignore"): b.close("negative and vanishing eigenvalues are dropped", utils.eigpow(M, e), (Q*f)@Q.T, atol=1e-6, rtol=1e-6)
        # linear systems
        vec = rng.random() < 0.5; m = rng.randint(1,3)
        R = np.moveaxis(b.nrng.standard_normal((n,n)+pre)+3*np.eye(n).reshape((n,n)+(1,)*len(pre)), (0,1), (-2,-1)); x = b.nrng.standard_normal(pre+(n,)) if vec else b.nrng.standard_normal(pre+(n,n))
        bb = np.einsum("...ij,...j->...i", R, x) if vec else R@x; masked = rng.random() < 0.5
        want = x.copy()
        if masked and pre:
            hit = b.nrng.random(pre) < 0.4; R[hit] = 0; want[hit] = 0
        a2 = sorted(ax) if vec else ax
        RA = np.moveaxis(R, (-2,-1), a2); BB = np.moveaxis(bb, -1, a2[0]) if vec else np.moveaxis(bb, (-2,-1), a2); B0 = BB.copy(); R0 = RA.copy()
        if vec and a2[0] > BB.ndim-1: continue
        r = utils.solve(RA, BB, axes=[a-nd if neg else a for a in a2], masked=masked); W = np.moveaxis(want, -1, a2[0]) if vec else np.moveaxis(want, (-2,-1), a2)
        b.close("solution", r, W, atol=1e-8); b.eq("right side kept", BB, B0); b.eq("matrix kept", RA, R0)
        # conditional distributions
        if n > 1:
            k = sorted(rng.sample(range(n), rng.randint(1,n-1))); u = [q for q in range(n) if q not in k]; S1 = S/scale[...,None,None]
            Am, cov = utils.build_conditional(np.moveaxis(S1, (-2,-1), ax), k, axes=ax); Ckk = np.linalg.inv(S1[...,k,:][...,:,k]); Cuk = S1[...,u,:][...,:,k]
            b.close("conditional mean", back(Am), Cuk@Ckk, atol=1e-6); b.close("conditional covariance", back(cov), S1[...,u,:][...,:,u]-Cuk@Ckk@np.swapaxes(Cuk,-1,-2), atol=1e-6)
        C1 = S[(0,)*len(pre)]; corr, std = (lambda o: o if isinstance(o, tuple) else (o, np.diag(C1)**0.5))(utils.cov2corr(C1)); b.close("correlation", corr, C1/np.sqrt(np.outer(np.diag(C1),np.diag(C1)))); b.close("back to covariance", utils.corr2cov(corr, np.diag(C1)**0.5), C1)
        f = utils.partial_flatten(A, axes, pos=0); b.eq("partial_flatten", f, np.moveaxis(A, ax, (-2,-1)).reshape(-1,n,n)); b.eq("partial_expand undoes it", utils.partial_expand(f, A.shape, axes, pos=0), A)

@bounded(P, ["pixell.enmap.spec2flat","pixell.enmap.smooth_spectrum","pixell.enmap.calc_ps2d","pixell.enmap.rand_map","pixell.enmap.rand_gauss","pixell.enmap.rand_gauss_harm","pixell.enmap.rand_gauss_iso_harm","pixell.enmap.map_mul","pixell.enmap.spec2flat_corr"], "random maps up to 7x7 in three projections, up to 3 components; statistics from 600 draws")
def flat_spectra(b):
    from pixell import enmap, wcsutils
    rng = b.rng
    for it in range(b.N(150)):
        n = rng.choice([0,1,2,3]); m = rmap(b, (n,) if n else ()); s, w = m.shape, m.wcs; nl = rng.choice([20,400,1500])
        ps = spd(b, max(n,1), (nl,)); cov = ps if n else ps[0,0]; e = rng.choice([1.0,0.5,-1.0]); over = rng.choice([1,1,2,3]); c0 = cov.copy()
        b.case(s, repr(w), nl, e, over)
        r = enmap.spec2flat(s, w, cov, exp=e, smooth=0, oversample=over)
        b.check("geometry", isinstance(r, enmap.ndmap) and r.shape == cov.shape[:-1]+tuple(s[-2:]) and wcsutils.equal(r.wcs, w), r.shape); b.eq("spectrum kept", cov, c0)
        norm = s[-2]*s[-1]/enmap.area(s, w); P_ = np.einsum("aij->ija", np.array([np.linalg.matrix_power(x,1) if e == 1 else None if False else pw(x, e) for x in np.einsum("ijl->lij", ps*norm)]))
        ly, lx = enmap.laxes(s, w, oversample=over); L_ = np.hypot(ly[:,None], lx[None,:])
        want = np.array([[np.interp(L_, np.arange(nl), P_[i,j])*(L_ <= nl-1) for j in range(len(P_))] for i in range(len(P_))])
        soft = (L_ > nl-1) & (L_ < nl)          # the last sample fades out or is dropped: not part of the promise
        want = want.reshape(want.shape[:2]+(s[-2],over,s[-1],over)).mean((3,5)); soft = soft.reshape(s[-2],over,s[-1],over).any((1,3)); want = want if n else want[0,0]
        b.close("interpolated spectrum in pixel units", np.where(soft, 0, np.asarray(r)), np.where(soft, 0, want), rtol=1e-6, atol=1e-6*np.max(np.abs(want))+1e-12)
        # smoothing
        ker = rng.choice(["gauss","step","given"]); wt = rng.choice(["mode","uniform","given"]); width = rng.choice([1.0,2.0,3.5]); q = np.abs(b.nrng.standard_normal((2,12)))+0.1; l = np.arange(12)
        K = np.exp(-0.5*(l/width)**2) if ker == "gauss" else (l < int(width))*1.0 if ker == "step" else np.array([1,.5,.25]+[0]*9); W = l**2. if wt == "mode" else np.ones(12) if wt == "uniform" else l+1.0
        sm = enmap.smooth_spectrum(q, kernel=K[:3] if ker == "given" else ker, weight=W if wt == "given" else wt, width=width)
        per = lambda i: 11-abs(11-i%22)      # even extension around both ends
        for i in range(12):
            num = sum(W[per(i+d)]*K[abs(d)]*q[:,per(i+d)] for d in range(-10,11))+W[per(i+11)]*K[11]*q[:,per(i+11)]; den = sum(W[per(i+d)]*K[abs(d)] for d in range(-10,11))+W[per(i+11)]*K[11]
            if den > 1e-6: b.close("smoothed spectrum is the weighted average over the kernel", sm[:,i], num/den, rtol=1e-6, atol=1e-9)
        # 2d cross-spectra
        nc = rng.choice([1,2,3]); h = rmap(b, (nc,), True); g = h if rng.random() < 0.5 else enmap.ndmap(b.nrng.standard_normal(h.shape)+1j*b.nrng.standard_normal(h.shape), h.wcs)
        if rng.random() < 0.3 and h.shape[-1] == h.shape[-2]: g = h.transpose(0,2,1)
        h0 = h.copy(); c2 = enmap.calc_ps2d(h[:,None], g[None]); b.close("cross-spectra", c2, (np.asarray(h)[:,None]*np.conj(np.asarray(g)[None])).real); b.check("geometry of spectra", wcsutils.equal(c2.wcs, h.wcs)); b.eq("modes kept", h, h0)
        b.close("auto-spectrum", enmap.calc_ps2d(h), np.abs(np.asarray(h))**2)
        # random maps
        seed = rng.randint(1,9999); b.case("random", s, repr(w), n, seed)
        sp = "auto"
        cf = enmap.spec2flat(s, w, cov, 0.5, border="constant"); np.random.seed(seed); wn = np.random.standard_normal(s)+1j*np.random.standard_normal(s)
        col = np.einsum("abyx,byx->ayx", np.asarray(cf), wn) if n else np.asarray(cf)*wn
        np.random.seed(seed); k = enmap.rand_gauss_iso_harm(s, w, cov); b.close("coloured by the square root of the spectrum", k, col, rtol=1e-9, atol=1e-12); b.check("geometry of realisation", wcsutils.equal(k.wcs, w))
        sc = n == 2 or rng.random() < 0.5; r1 = enmap.rand_map(s, w, cov, scalar=sc, seed=seed); b.eq("same seed, same map", r1, enmap.rand_map(s, w, cov, scalar=sc, seed=seed))
        b.close("transformed to a map", r1, enmap.ifft(enmap.ndmap(col, w)).real if sc else enmap.harm2map(enmap.ndmap(col, w)), rtol=1e-9, atol=1e-12)
        if n:
            c4 = spd(b, n, s[-2:]); px = rng.random() < 0.5; np.random.seed(seed); k4 = enmap.rand_gauss_iso_harm(s, w, c4, pixel_units=px); h4 = enmap.multi_pow(c4*(1 if px else norm), 0.5)
            b.close("2d spectra", k4, np.einsum("abyx,byx->ayx", h4, wn), rtol=1e-9, atol=1e-12)
        if min(s[-2:]) > 3 and not n:
            x = cov.copy(); x[0] = np.nan; x0 = x.copy(); q2 = enmap.spec2flat_corr(s, w, x); b.check("spec2flat_corr leaves the spectrum alone", np.array_equal(x, x0, equal_nan=True))
            if wcsutils.is_cyl(w): cr = np.fft.ifft2(np.asarray(q2).reshape(s)).real; b.check("zero lag in the corner", np.max(np.abs(cr)) <= np.abs(cr[0,0])*(1+1e-6)+1e-9 or cr.ravel().argmax() == 0, cr)
    s, w = enmap.geometry(pos=(0,0), shape=(6,8), res=0.02, proj="car"); cl = np.exp(-np.arange(800)/150.0)+0.1; b.case("statistics")
    acc = np.mean([np.abs(np.asarray(enmap.fft(enmap.rand_map(s, w, cl, scalar=True, seed=i+1))))**2 for i in range(b.N(600))],0); b.close("power of random maps", acc, enmap.spec2flat(s, w, cl), rtol=0.35)
def pw(x, e):
    E, V = np.linalg.eigh(x); return (V*E**e)@V.T

@bounded(P, ["pixell.powspec.sym_compress","pixell.powspec.sym_expand","pixell.powspec.compressed_order","pixell.powspec.spec2corr","pixell.powspec.scale_spectrum","pixell.powspec.read_spectrum","pixell.powspec.write_spectrum","pixell.powspec.expand_inds","pixell.powspec.read_camb_full_lens","pixell.powspec.sym_expand_camb_full_lens","pixell.powspec.read_camb_scalar","pixell.powspec.scale_camb_scalar_phi"], "random spectra up to 5 components and 30 multipoles; files in a scratch directory")
def spectra(b):
    from pixell import powspec
    import tempfile, os, shutil
    rng = b.rng; tmp = tempfile.mkdtemp(); f = os.path.join(tmp, "s.txt")
    try:
        for it in range(b.N(200)):
            n = rng.randint(1,5); nl = rng.randint(2,30); ps = spd(b, n, (nl,)); sch = rng.choice(["stable","diag","row"]); nd = rng.randint(0,2); tail = tuple(rng.randint(1,3) for _ in range(nd)); b.case(n, nl, sch, tail)
            k = n*(n+1)//2; o = powspec.compressed_order(k, sch); b.check("every pair once", sorted(tuple(sorted(x)) for x in o) == [(i,j) for i in range(n) for j in range(i,n)], o)
            if n <= 4: b.check("documented order", [sorted(x) for x in o] == order(n, sch), o)
            if sch == "stable": b.check("stable under truncation", all(powspec.compressed_order(q, sch) == o[:q] for q in range(1,k+1)))
            M = spd(b, n, tail); ax = rng.randint(0,nd); A = np.moveaxis(M, (0,1), (ax,ax+1)); comb = rng.random() < 0.4
            z = powspec.sym_compress(A, scheme=sch, axes=[ax,ax+1], combined=comb); Z = np.moveaxis(z, ax, 0)
            b.close("elements", Z, np.array([M[i,j]*(2 if comb and i != j else 1) for i,j in o])); b.close("expand undoes compress", powspec.sym_expand(z, scheme=sch, axis=ax, combined=comb), A)
            zn = powspec.sym_compress(np.moveaxis(M, (0,1), (-2,-1)), scheme=sch, axes=[-2,-1]); b.close("negative axes", np.moveaxis(zn, -1, 0), np.array([M[i,j] for i,j in o]))
            # correlation function
            th = b.nrng.uniform(0, np.pi, rng.choice([(4,),(2,3)])); co = powspec.spec2corr(ps, th); l = np.arange(nl); from scipy.special import eval_legendre
            Pl = np.array([eval_legendre(q, np.cos(th)) for q in l]); want = np.einsum("ijl,l...->ij...", ps*(2*l+1)/(4*np.pi), Pl); b.close("correlation function", co, want, rtol=1e-8, atol=1e-9)
            b.close("from cosines", powspec.spec2corr(ps, np.cos(th), iscos=True), want, rtol=1e-8, atol=1e-9); b.close("one by one", powspec.spec2corr(ps, th, symmetric=False), want.reshape((-1,)+th.shape), rtol=1e-8, atol=1e-9)
            # scaling and files
            ll = l*(l+1.)/(2*np.pi); sc = powspec.scale_spectrum(ps, 1); b.close("l(l+1)/2pi taken out", (sc*ll)[...,1:], ps[...,1:]); b.check("no monopole", np.all(sc[...,0] == 0))
            b.close("and put back", powspec.scale_spectrum(sc, -1)[...,1:], ps[...,1:])
            s_, i_, x = rng.random() < 0.5, rng.random() < 0.7, rng.choice([sch,None]); p0 = ps.copy(); spec = ps if x else ps[:,0]; spec = spec.copy(); spec[...,0] = 0
            powspec.write_spectrum(f, spec, inds=i_, scale=s_, expand=x); r = powspec.read_spectrum(f, inds=i_, scale=s_, expand=x); b.close("read what was written", r, spec, rtol=1e-6, atol=1e-9)
            off = rng.randint(0,4); np.savetxt(f, np.concatenate([[l+off], ps[:,0]],0).T); r = powspec.read_spectrum(f, scale=False, expand=None); b.check("indices in the first column", r.shape == (n, nl+off) and np.all(r[:,:off] == 0) and np.allclose(r[:,off:], ps[:,0]))
            cols = np.abs(b.nrng.standard_normal((7,nl))); np.savetxt(f, np.concatenate([[l],cols],0).T); r = powspec.read_camb_full_lens(f); q = np.maximum(ll,1e-30); g = (l*(l+1.))
            w4 = np.zeros((4,4,nl))
            with np.errstate(all="ignore"):
                for (i,j),v in {(1,1):cols[0]/ll,(2,2):cols[1]/ll,(3,3):cols[2]/ll,(1,2):cols[3]/ll,(0,0):cols[4]*2*np.pi/g**2,(0,1):cols[5]*2*np.pi/g**1.5,(0,2):cols[6]*2*np.pi/g**1.5}.items(): w4[i,j] = w4[j,i] = v
            w4[...,0] = 0; b.close("CAMB lens potential file", r, w4, rtol=1e-9, atol=1e-12)
            np.savetxt(f, np.concatenate([[l],cols[:5]],0).T); c3, ph = powspec.read_camb_scalar(f); w3 = np.zeros((3,3,nl)); 
            with np.errstate(all="ignore"): w3[0,0], w3[1,1] = cols[0]/ll, cols[1]/ll; w3[0,1] = w3[1,0] = 0
            b.check("CAMB scalar file", np.allclose(c3[0,0,1:], (cols[0]/q)[1:]) and np.allclose(c3[1,1,1:], (cols[1]/q)[1:]) and np.allclose(ph[0,0,1:], (cols[3]/np.maximum(l,1)**4/2.726e6**2)[1:], rtol=1e-9, atol=0))
    finally: shutil.rmtree(tmp)
