"""C09: spherical harmonic coefficient layouts and operations per (l,m)."""
import itertools
import numpy as np
from vp.core import *
from vp import npshim
P = "C09"

class SVec:
    """a vector of symbolic length given by its element function"""
    def __init__(self, c, n, f): self.c, self.n, self.f = c, n, f
    def _bin(self, o, op): return SVec(self.c, self.n, (lambda i: op(self.f(i), o.f(i))) if isinstance(o, SVec) else (lambda i: op(self.f(i), o)))
    def __add__(self, o): return self._bin(o, lambda a,b: a+b)
    def __sub__(self, o): return self._bin(o, lambda a,b: a-b)
    def __rsub__(self, o): return self._bin(o, lambda a,b: b-a)
    def __mul__(self, o): return self._bin(o, lambda a,b: a*b)
    def __floordiv__(self, o): return self._bin(o, lambda a,b: a//b)
    __radd__, __rmul__ = __add__, __mul__
    def astype(self, *a, **k): return self
    def __getitem__(self, i): return Elem(self.f(i))
class Elem:
    def __init__(self, v): self.v = v
    def astype(self, *a, **k): return self
    def __add__(self, o): return Elem(self.v+(o.v if isinstance(o, Elem) else o))
class NPV:
    """numpy with arange/max over symbolic lengths (max by its contract: attained, and not below the elements given as hints)"""
    def __init__(self, c, base): self.__dict__.update(c=c, _b=base, hints=[])
    def arange(self, n, *a): return SVec(self.c, n, lambda i: i) if issym(n) and not a else self._b.arange(n, *a)
    def max(self, v, *a, **k):
        if not isinstance(v, SVec): return self._b.max(v, *a, **k)
        c = self.c; k = c.int("argmax"); r = c.int("maxval"); c.assume(k >= 0, k < v.n, Eq(r, v.f(k)))
        for h in self.hints: c.assume(Implies(And(h >= 0, h < v.n), r >= v.f(h)))
        # monotone steps of the candidates are left to the solver
        self.__dict__["arg"] = k
        return r
    def __getattr__(self, k): return getattr(self._b, k)

def _layout(c, layout, nalm=False):
    C = c.mod("curvedsky"); lmax = c.int("lmax", lo=0, sample=(0,9)); mmax = c.int("mmax", lo=0, sample=(0,9)); c.assume(mmax <= lmax)
    l, m, l2, m2 = [c.int(n, lo=0, sample=(0,9)) for n in ("l","m","l2","m2")]
    c.assume(l <= lmax, m <= mmax, m <= l, l2 <= lmax, m2 <= mmax, m2 <= l2)
    if c.symbolic:
        nph = NPV(c, C.np); nph.hints.append(mmax)
        tri = lambda k: k*(2*lmax+1-k)
        with stub(c, C, np=nph): a = C.alm_info(lmax, mmax, layout=layout)
        k = nph.arg
        if layout == "triangular":
            # products of consecutive integers are even, and the row starts increase
            for q in (m, m2, mmax, k):
                h = q//2
                if Eq(q, 2*h): c.step("row starts are whole (even m)", Eq(tri(q), 2*(h*(2*lmax+1-q)))); e = h*(2*lmax+1-q)
                else: c.step("odd m", Eq(2*lmax+1-q, 2*(lmax-h))); c.step("row starts are whole (odd m)", Eq(tri(q), 2*(q*(lmax-h)))); e = q*(lmax-h)
                c.step("half", Eq(tri(q)//2, e))
            c.step("the last row starts last", tri(k) <= tri(mmax))
            d = m2-m
            c.step("rows do not overlap", Implies(m2 > m, tri(m2)-tri(m) >= d*(2*lmax+1-m2-m)))
    else: a = C.alm_info(lmax, mmax, layout=layout)
    i, j = a.lm2ind(l, m), a.lm2ind(l2, m2)
    if isinstance(i, Elem): i, j = i.v, j.v
    return a, lmax, mmax, (l,m,l2,m2), i, j

@contract(P, ["pixell.curvedsky.alm_info.__init__","pixell.curvedsky.alm_info.lm2ind"], scope="all lmax, mmax and pairs of (l,m), rectangular layout", samples=200)
def rectangular(c):
    a, lmax, mmax, (l,m,l2,m2), i, j = _layout(c, "rectangular")
    c.check("position", Eq(i, m*(lmax+1)+l)); c.step("inside", And(i >= 0, i < a.nelem)); c.check("size", Eq(a.nelem, (lmax+1)*(mmax+1)))
    if c.symbolic: c.step("row gap", And(Implies(m2 > m, (m2-m)*(lmax+1) >= lmax+1), Implies(m2 < m, (m-m2)*(lmax+1) >= lmax+1)))
    c.check("no two coefficients share a place", Implies(Eq(i, j), And(Eq(l,l2), Eq(m,m2))) if c.symbolic else (i != j or (l,m) == (l2,m2)))
@contract(P, ["pixell.curvedsky.alm_info.__init__","pixell.curvedsky.alm_info.lm2ind"], scope="all lmax, mmax and pairs of (l,m), triangular layout", samples=200)
def triangular(c):
    a, lmax, mmax, (l,m,l2,m2), i, j = _layout(c, "triangular")
    c.check("position", Eq(2*i, m*(2*lmax+1-m)+2*l)); c.step("inside", And(i >= 0, i < a.nelem)); c.check("size", Eq(2*a.nelem, mmax*(2*lmax+1-mmax)+2*(lmax+1)))
    if c.symbolic:
        c.step("row gap up", Implies(m2 > m, j-l2 >= i-l+lmax-m)); c.step("row gap down", Implies(m2 < m, i-l >= j-l2+lmax-m2))
    c.check("no two coefficients share a place", Implies(Eq(i, j), And(Eq(l,l2), Eq(m,m2))) if c.symbolic else (i != j or (l,m) == (l2,m2)))
@contract(P, ["pixell.curvedsky.nalm2lmax"], scope="lmax up to 10^6 (integers; the floating-point square root is exact there)", samples=200)
def size_to_lmax(c):
    C = c.mod("curvedsky"); lmax = c.int("lmax", lo=0, hi=10**6, sample=(0,9999))
    n2 = (lmax+1)*(lmax+2); n = c.int("n", lo=0) if c.symbolic else n2//2
    c.assume(Eq(2*n, n2))
    c.check("inverse of the size", Eq(C.nalm2lmax(n), lmax))

# ---------------------------------------------------------------- bounded
def lm(ainfo): return [(l,m) for m in range(ainfo.mmax+1) for l in range(m, ainfo.lmax+1)]
def put(ainfo, d, dtype, fill=0):
    a = np.full(ainfo.nelem, fill, dtype)
    for (l,m), v in d.items(): a[ainfo.lm2ind(l,m)] = v
    return a
def get(ainfo, a): return {(l,m): a[ainfo.lm2ind(l,m)] for l,m in lm(ainfo)}
def rinfo(b, lmaxhi=7, first=True):
    from pixell import curvedsky
    lmax = b.rng.randint(0,lmaxhi); mmax = lmax if b.rng.random() < 0.5 else b.rng.randint(0,lmax)
    k = b.rng.choice(["triangular","rectangular","tri","rect","custom"])
    if k == "custom":
        gap = [b.rng.randint(0,3)*(first or i > 0) for i in range(mmax+1)]; o = 0; ms = []
        for m in range(mmax+1): o += gap[m]; ms.append(o); o += lmax+1
        return curvedsky.alm_info(lmax, mmax, layout=np.array(ms)), k
    return curvedsky.alm_info(lmax, mmax, layout=k), k
def rc(b, shape, dtype):
    r = b.nrng.standard_normal(tuple(shape)+(2,)); return (r[...,0]+1j*r[...,1]).astype(dtype)

@bounded(P, ["pixell.curvedsky.alm_info.__init__","pixell.curvedsky.alm_info.lm2ind","pixell.curvedsky.alm_info.lmul","pixell.curvedsky.alm_info.alm2cl","pixell.curvedsky.alm_info.transpose_alm","pixell.curvedsky.almxfl","pixell.curvedsky.alm2cl","pixell.curvedsky.transfer_alm","cmisc.lmul","cmisc.alm2cl","cmisc.transpose_alm","cmisc.transfer_alm"], "random layouts with lmax up to 7, both precisions, leading axes, filters shorter and longer than lmax")
def operations(b):
    from pixell import curvedsky
    rng = b.rng
    for it in range(b.N(500)):
        a, kind = rinfo(b); dt = rng.choice([np.complex64,np.complex128]); rt = np.zeros(1,dt).real.dtype; tol = dict(rtol=2e-5,atol=2e-5) if dt == np.complex64 else dict(rtol=1e-11,atol=1e-12)
        b.case(kind, a.lmax, a.mmax, dt.__name__, it)
        inds = [int(a.lm2ind(l,m)) for l,m in lm(a)]
        b.check("every coefficient has its own place", len(set(inds)) == len(inds) and min(inds) >= 0 and max(inds) < a.nelem)
        b.check("size", (a.nl, a.nm) == (a.lmax+1, a.mmax+1))
        if kind in ("tri","triangular"):
            b.eq("triangular layout", inds, list(range(len(inds)))); b.check("size", a.nelem == len(inds))
            if a.mmax == a.lmax: b.check("lmax from size", curvedsky.alm_info(nalm=a.nelem).lmax == a.lmax and curvedsky.nalm2lmax(a.nelem) == a.lmax)
            elif True:
                b.raises("ambiguous size refused", lambda: curvedsky.alm_info(lmax=a.lmax, nalm=a.nelem), AssertionError)
        if kind in ("rect","rectangular"): b.check("size", a.nelem == a.nl*a.nm)
        ls = rng.randint(0,4); L_, M_ = np.array([x for x in lm(a)]).T; b.eq("vectorised", a.lm2ind(L_, M_), inds)
        pre = rng.choice([(),(2,),(2,3)]); nl = rng.choice([a.lmax+1, a.lmax+1, rng.randint(1,a.lmax+1), a.lmax+1+rng.randint(1,6)])
        A = rc(b, pre+(a.nelem,), dt); A0 = A.copy()
        # scalar filters
        fpre = rng.choice([(), pre, pre[-1:], (1,)*len(pre)]); f = b.nrng.standard_normal(fpre+(nl,)).astype(rng.choice([rt, np.float64])); f0 = f.copy()
        mat = (len(pre) == 1 and f.ndim == 3)
        R = a.lmul(A, f); F = np.broadcast_to(f, pre+(nl,))
        def want(A, F):
            W = A.copy()
            for l,m in lm(a): W[...,a.lm2ind(l,m)] *= (F[...,l] if l < nl else 0)
            return W
        W = want(A, F); sel = np.array(inds)
        b.close("each coefficient times the filter at its l", R[...,sel], W[...,sel], **tol); b.check("type", R.dtype == dt and R.shape == A.shape); b.eq("input unchanged", A, A0); b.eq("filter unchanged", f, f0)
        R2 = curvedsky.almxfl(A, f, ainfo=a); b.close("almxfl", R2[...,sel], R[...,sel], **tol)
        fun = lambda l: 1/(1+l); R3 = curvedsky.almxfl(A, fun, ainfo=a)
        for l,m in lm(a): b.close("function of l", R3[...,a.lm2ind(l,m)], A[...,a.lm2ind(l,m)]/(1+l), **tol)
        if kind in ("tri","triangular") and a.mmax == a.lmax: b.close("default layout", curvedsky.almxfl(A, f), R, **tol); b.eq("default layout", curvedsky.alm2cl(A), a.alm2cl(A))
        O = np.zeros_like(A); R4 = a.lmul(A, f, O); b.close("out", O[...,sel], W[...,sel], **tol); b.close("out returned", R4[...,sel], W[...,sel], **tol)
        A2 = A.copy(); R5 = a.lmul(A2, f, A2); b.close("in place", A2[...,sel], W[...,sel], **tol)
        # broadcasting a single alm over several filters
        fb = b.nrng.standard_normal((3,)+(1,)*0+(nl,)).astype(rt); Rb = a.lmul(A.reshape(-1,a.nelem)[0], fb)
        for k in range(3): b.close("broadcast over filters", Rb[k][sel], want(A.reshape(-1,a.nelem)[0], fb[k])[sel], **tol)
        # matrices
        N, M = rng.randint(1,3), rng.randint(1,3); Am = rc(b, (M,a.nelem), dt); Mt = b.nrng.standard_normal((N,M,nl)).astype(rt); Am0 = Am.copy()
        Rm = a.lmul(Am, Mt); b.check("shape", Rm.shape == (N,a.nelem) and Rm.dtype == dt); b.eq("input unchanged", Am, Am0)
        Wm = np.zeros((N,a.nelem), dt)
        for l,m in lm(a): Wm[:,a.lm2ind(l,m)] = Mt[:,:,l].dot(Am[:,a.lm2ind(l,m)]) if l < nl else 0
        b.close("matrix times coefficients", Rm[:,sel], Wm[:,sel], **tol)
        if N == M: Ai = Am.copy(); a.lmul(Ai, Mt, Ai); b.close("matrix in place", Ai[:,sel], Wm[:,sel], **tol)
        # unused places
        un = np.setdiff1d(np.arange(a.nelem), sel); O = np.full((N,a.nelem), 7+1j, dt); a.lmul(Am, Mt, O); b.eq("places of no coefficient are left alone", O[:,un], np.full((N,len(un)), 7+1j, dt)); b.close("matrix with out", O[:,sel], Wm[:,sel], **tol)
        big = np.full((3,M,a.nelem+2), 9-1j, dt); view = big[1,:,1:-1]; view[:] = Am; a.lmul(view, b.nrng.standard_normal((M,M,nl)).astype(rt), view); b.check("nothing outside the array is touched", np.all(big[[0,2]] == 9-1j) and np.all(big[1,:,0] == 9-1j) and np.all(big[1,:,-1] == 9-1j))
        # spectra
        B_ = rc(b, pre+(a.nelem,), dt)
        def spec(x, y):
            r = np.zeros(np.broadcast_shapes(x.shape[:-1],y.shape[:-1])+(a.lmax+1,))
            for l,m in lm(a):
                i = a.lm2ind(l,m); u, v = x[...,i].astype(complex), y[...,i].astype(complex)
                r[...,l] += (u.real*v.real if m == 0 else 2*(u*np.conj(v)).real)/(2*l+1)
            return r
        st = dict(rtol=1e-4,atol=1e-4) if dt == np.complex64 else dict(rtol=1e-11,atol=1e-11)
        b.close("auto spectrum", a.alm2cl(A), spec(A,A), **st); b.close("cross spectrum", a.alm2cl(A,B_), spec(A,B_), **st); b.check("type", a.alm2cl(A).dtype == rt); b.close("module function", curvedsky.alm2cl(A, B_, ainfo=a), spec(A,B_), **st)
        if pre == (2,): b.close("all pairs", a.alm2cl(A[:,None],B_[None,:]), spec(A[:,None],B_[None,:]), **st); b.close("all pairs of one", a.alm2cl(A[:,None],A[None,:]), spec(A[:,None],A[None,:]), **st)
        b.close("mixed precision", a.alm2cl(A, B_.astype(np.complex128)), spec(A,B_), **st); b.close("strided", a.alm2cl(np.repeat(A,2,axis=-1)[...,::2], B_), spec(A,B_), **st); b.eq("input unchanged", A, A0)
        # transposition: element k of the l-major enumeration is read from place k of the m-major one
        T = a.transpose_alm(A); order = sorted(lm(a), key=lambda x: x)
        order = [(l,m) for l in range(a.lmax+1) for m in range(min(l,a.mmax)+1)]
        for k, (l,m) in enumerate(order): b.eq("transposed", T[...,a.lm2ind(l,m)], A[...,inds[k]])
        b.eq("input unchanged", A, A0); A2 = A.copy(); r = a.transpose_alm(A2, A2); b.eq("transposed in place", A2[...,sel], T[...,sel])
        # copying between layouts
        a2, k2 = rinfo(b); o = rc(b, pre+(a2.nelem,), dt); o0 = o.copy(); com = set(lm(a)) & set(lm(a2))
        t = curvedsky.transfer_alm(a, A, a2); b.check("shape", t.shape == pre+(a2.nelem,) and t.dtype == dt)
        w = np.zeros(pre+(a2.nelem,), dt); w2 = o0.copy(); w3 = o0.copy()
        for l,m in com: i, j = a.lm2ind(l,m), a2.lm2ind(l,m); w[...,j] = A[...,i]; w2[...,j] = A[...,i]; w3[...,j] += A[...,i]
        b.eq("common coefficients copied, the rest zero", t, w); curvedsky.transfer_alm(a, A, a2, o); b.eq("only common coefficients overwritten", o, w2)
        o = o0.copy(); r = curvedsky.transfer_alm(a, A, a2, o, op=lambda x,y: x+y); b.close("added", o, w3, **tol); b.eq("input unchanged", A, A0); b.check("returned", r is o)

@bounded(P, ["pixell.curvedsky.rand_alm","pixell.curvedsky.rand_alm_white","pixell.curvedsky.prepare_ps","pixell.curvedsky.pad_spectrum","pixell.curvedsky.fill_gauss","pixell.curvedsky.prepare_alm"], "random spectra with lmax up to 12; statistics from 4000 draws")
def random_alms(b):
    from pixell import curvedsky, enmap
    rng = b.rng
    for it in range(b.N(150)):
        n = rng.choice([1,2,3]); nl = rng.randint(1,9); lmax = rng.choice([None, rng.randint(0,12)]); dt = rng.choice([np.complex64,np.complex128]); seed = rng.randint(1,9999)
        R = b.nrng.standard_normal((n,n,nl)); ps = np.einsum("abl,cbl->acl", R, R)+0.2*np.eye(n)[:,:,None]
        form = rng.choice(["full","diag","1d"]);
        if form == "1d": n = 1; psin = ps[0,0]; ps = ps[:1,:1]
        elif form == "full": psin = ps
        else:
            from pixell import powspec; psin = np.array([ps[i,i+k] for k in range(n) for i in range(n-k)])
        b.case(form, n, nl, lmax, dt.__name__, seed); psin0 = psin.copy()
        alm, ai = curvedsky.rand_alm(psin, lmax=lmax, seed=seed, dtype=dt, return_ainfo=True)
        L_ = nl-1 if lmax is None else lmax
        b.check("layout", ai.lmax == L_ and ai.mmax == L_ and alm.shape == (() if form == "1d" else (n,))+(ai.nelem,) and alm.dtype == dt, (alm.shape, alm.dtype)); b.eq("spectrum unchanged", psin, psin0)
        A = alm.reshape(n,-1); tol = dict(rtol=1e-4,atol=1e-4) if dt == np.complex64 else dict(rtol=1e-9,atol=1e-9)
        b.check("m=0 is real", np.all(A[:,:L_+1].imag == 0))
        for l,m in lm(ai):
            if l >= nl: b.check("no power beyond the spectrum", np.all(A[:,ai.lm2ind(l,m)] == 0))
        b.eq("same seed, same numbers", curvedsky.rand_alm(psin, lmax=lmax, seed=seed, dtype=dt), alm)
        # the white numbers behind it, l-major, so that a larger lmax repeats the large scales
        if form == "1d" or n == 1:
            alm2, ai2 = curvedsky.rand_alm(curvedsky.pad_spectrum(psin, nl+4), seed=seed, dtype=dt, lmax=L_+3, return_ainfo=True); A2 = alm2.reshape(1,-1)
            for l,m in lm(ai): b.close("large scales do not depend on lmax", A[0,ai.lm2ind(l,m)], A2[0,ai2.lm2ind(l,m)], **tol)
        np.random.seed(seed); wn = curvedsky.rand_alm_white(ai, pre=(n,), dtype=dt); half = enmap.multi_pow(ps, 0.5)
        for l,m in lm(ai):
            h = half[:,:,l] if l < nl else np.zeros((n,n)); v = h.dot(wn[:,ai.lm2ind(l,m)].astype(complex)/2**0.5); v = v.real*2**0.5 if m == 0 else v
            b.close("white numbers coloured by the square root of the spectrum", A[:,ai.lm2ind(l,m)], v, **tol)
        a2, k2 = rinfo(b, 9, first=False); alm3 = curvedsky.rand_alm(psin, ainfo=a2, seed=seed, dtype=dt); A3 = alm3.reshape(n,-1)
        b.check("given layout", A3.shape[-1] == a2.nelem)
        np.random.seed(seed); w3 = curvedsky.rand_alm_white(a2, pre=(n,), dtype=dt)
        for l,m in lm(a2):
            h = half[:,:,l] if l < nl else np.zeros((n,n)); v = h.dot(w3[:,a2.lm2ind(l,m)].astype(complex)/2**0.5); v = v.real*2**0.5 if m == 0 else v
            b.close("given layout: coloured", A3[:,a2.lm2ind(l,m)], v, **tol)
    N = 4000; np.random.seed(3); ai = curvedsky.alm_info(3); w = curvedsky.rand_alm_white(ai, pre=(N,)); b.case("statistics of white numbers")
    b.close("zero mean, unit variance of each part", [np.abs(w.mean(0)).max(), w.real.var(), w.imag.var(), np.abs((w.real*w.imag).mean())], [0,1,1,0], atol=0.08)
    C = w.T.conj().dot(w)/N; b.close("independent", np.abs(C-2*np.eye(ai.nelem)).max(), 0, atol=0.3)
    cl = np.array([3.,1.,0.5,2.]); sp = np.mean([curvedsky.alm2cl(curvedsky.rand_alm(cl, seed=s)) for s in range(b.N(1500))],0); b.close("spectrum of the simulations", sp, cl, rtol=0.15)

@external(P, ["cmisc_core.c:lmul_dp","cmisc_core.c:lmul_sp","cmisc_core.c:transfer_alm_dp","cmisc_core.c:transfer_alm_sp"], "all sizes, layouts with non-overlapping rows and values (the C source; reals for floats)")
def kernels(out, tier):
    from vp import ckern; ckern.lmul(out, tier); ckern.transfer(out, tier)
