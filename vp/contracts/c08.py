"""C08: Fourier-space conventions."""
import itertools, cmath
import numpy as np
from vp.core import *
from vp import geo, npshim
from vp.contracts.c04 import small_geo
from vp.contracts.c07 import wplain, wcar, near
P = "C08"
FFTC = "FFT engine (ducc0/fftw/numpy): backward transform of the forward transform is the input times the number of elements, and the two are adjoint; DCT-I twice is the input times 2(n-1) per axis"

# ---- index <-> frequency
@contract(P, ["pixell.fft.ind2freq","pixell.fft.freq2ind","pixell.fft.int2rfreq","pixell.fft.rfreq2ind"], scope="all lengths, indices, spacings of either sign", samples=300)
def index_frequency(c):
    F = c.mod("fft"); n = c.int("n", lo=1, sample=(1,30)); i = c.int("i", lo=0, sample=(0,29)); c.assume(i < n); d = c.real("d", ne=0, sample=(-3,3))
    f = F.ind2freq(n, i, d); f = f[()] if hasattr(f, "shape") and not issym(f) else f
    want = ite(2*i < n, i, i-n) if c.symbolic else (i if 2*i < n else i-n)
    c.check("frequency", near(c, f*(d*n), want)); c.check("fftfreq convention", And(want*2 < n, want*2 >= -n))
    b = F.freq2ind(n, f, d); c.check("inverse", near(c, b[()] if hasattr(b,"shape") and not issym(b) else b, i))
    c.check("real", near(c, F.rfreq2ind(n, F.int2rfreq(n, i, d), d), i))

for _ny, _nx in ((1,2),(2,3),(4,5),(5,4)):
    def _lax(c, ny=_ny, nx=_nx):
        E = c.mod("enmap"); w = wplain(c); d = c.pi/180
        step = [w.wcs.cdelt[1]*d, w.wcs.cdelt[0]*d]
        def ff(n, sp): return c.arr([(i if 2*i < n else i-n)/(n*sp) for i in range(n)])
        with stub(c, E.np.fft if False else E, np=NPF(c, E.np, ff)): ly, lx = E.laxes((3,ny,nx), w)
        for l, n, sp in ((ly,ny,step[0]),(lx,nx,step[1])):
            for i in range(n): c.check("wavenumber is 2 pi k/extent", near(c, l[i]*(n*sp), 2*c.pi*(i if 2*i < n else i-n)))
        for i, j in itertools.product(range(ny), range(nx)):
            p = E.pix2l((ny,nx), w, c.arr([i,j])); c.check("pix2l", And(near(c, p[0], ly[i]), near(c, p[1], lx[j])))
            q = E.l2pix((ny,nx), w, c.arr([ly[i],lx[j]])); c.check("l2pix inverts pix2l", And(near(c, q[0], i), near(c, q[1], j)))
        ls = E.lpixshape((ny,nx), w, signed=True); c.check("fourier pixel", And(near(c, ls[0]*(ny*step[0]), 2*c.pi), near(c, ls[1]*(nx*step[1]), 2*c.pi)))
    contract(P, ["pixell.enmap.laxes","pixell.enmap.pix2l","pixell.enmap.l2pix","pixell.enmap.lpixshape","pixell.fft.ind2freq","pixell.fft.freq2ind"], scope="all plain geometries, %dx%d maps" % (_ny,_nx), samples=60, trusted=["numpy.fft.fftfreq"], name="laxes_%dx%d" % (_ny,_nx))(_lax)

class NPF:
    """numpy with fftfreq given by its definition (symbolic spacing)"""
    def __init__(self, c, base, ff):
        self.__dict__["_b"] = base
        if c.symbolic:
            class fft: fftfreq = staticmethod(ff)
            self.__dict__["fft"] = fft
    def __getattr__(self, k): return getattr(self._b, k)

# ---- normalisation, over the engine's contract
class FMap:
    """a map that is only a value times a transform of the original"""
    def __init__(self, v, shape, ps, wcs=None): self.v, self.shape, self.ps, self.wcs, self.ndim = v, shape, ps, wcs, len(shape)
    def pixsize(self): return self.ps
    def copy(self): return FMap(self.v, self.shape, self.ps, self.wcs)
    def __imul__(self, o): self.v = self.v*o; return self
    def __itruediv__(self, o): self.v = self.v/o; return self
    def __mul__(self, o): return FMap(self.v*o, self.shape, self.ps, self.wcs)
    __rmul__ = __mul__
    def __truediv__(self, o): return FMap(self.v/o, self.shape, self.ps, self.wcs)
class Eng:
    """the engine's contract, forward transforms being the identity"""
    def __init__(self, N, M): self.N, self.M = N, M
    def fft(self, a, o=None, axes=None, nthread=0, **k): assert list(axes) == [-2,-1]; return a.copy()
    def ifft(self, a, o=None, axes=None, nthread=0, normalize=False, **k): assert list(axes) == [-2,-1]; return a*(self.N if not normalize else 1)
    def dct(self, a, o=None, axes=None, nthread=0, **k): assert list(axes) == [-2,-1]; return a.copy()
    def idct(self, a, o=None, axes=None, nthread=0, normalize=False, **k): assert list(axes) == [-2,-1]; return a*(self.M if not normalize else 1)
for _norm in (True, False, "phys"):
    def _nrm(c, norm=_norm):
        if c.symbolic:
            E = c.mod("enmap"); ny, nx = c.int("ny", lo=2), c.int("nx", lo=2); x = c.real("x"); ps = c.real("ps"); c.assume(ps > 0)
            N, M = ny*nx, 4*(ny-1)*(nx-1)
            c.assume(N > 0, M > 0)
            with stub(c, E, samewcs=lambda a, *b: a, enfft=Eng(N, M)):
                m = FMap(x, (3,ny,nx), ps)
                f = E.fft(m, normalize=norm); a = E.fft_adjoint(FMap(x,(3,ny,nx),ps), normalize=norm); g = E.ifft(f, normalize=norm)
                c.check("argument kept", Eq(m.v, x))
                c.check("inverse", Eq(g.v, x if norm else x*N))
                if norm is True: c.check("unitary", Eq(f.v*f.v*N, x*x))
                elif norm is False: c.check("plain sum", Eq(f.v, x))
                else: c.check("physical: power is in units of the flat-sky spectrum", Eq(f.v*f.v*N, x*x*ps))
                # adjoint: <F x, y> = <x, F^H y>: same factor in front of the plain transforms
                c.check("adjoint", Eq(a.v, f.v*N))
                i = E.ifft(FMap(x,(ny,nx),ps), normalize=norm); ia = E.ifft_adjoint(FMap(x,(ny,nx),ps), normalize=norm); c.check("adjoint of the inverse", Eq(ia.v*N, i.v))
                d = E.idct(E.dct(FMap(x,(ny,nx),ps), normalize=norm), normalize=norm); c.check("dct inverse", Eq(d.v, x if norm else x*M))
            return
        from pixell import enmap
        ny, nx = c.int("ny", lo=2, sample=(2,6)), c.int("nx", lo=2, sample=(2,6)); rng = c.nrng if hasattr(c, "nrng") else np.random.default_rng(ny*7+nx)
        w = geo.real_wcs("car", [1.0,2.0], [-0.5,0.7], [3.0,0.0]); m = enmap.ndmap(rng.standard_normal((2,ny,nx)), w); y = enmap.ndmap(rng.standard_normal((2,ny,nx))+1j*rng.standard_normal((2,ny,nx)), w)
        N, ps = ny*nx, m.pixsize(); ref = np.fft.fft2(m); f = enmap.fft(m, normalize=norm)
        c.check("forward", np.allclose(f, ref*{True:N**-0.5,False:1}.get(norm, (ps/N)**0.5)))
        c.check("inverse", np.allclose(enmap.ifft(f, normalize=norm), m*(1 if norm else N)))
        c.check("adjoint", np.allclose(np.vdot(f, y), np.vdot(m+0j, enmap.fft_adjoint(y, normalize=norm))))
        c.check("adjoint of the inverse", np.allclose(np.vdot(enmap.ifft(y, normalize=norm), m+0j), np.vdot(y, enmap.ifft_adjoint(m+0j, normalize=norm))))
        c.check("dct inverse", np.allclose(enmap.idct(enmap.dct(m, normalize=norm), normalize=norm), m*(1 if norm else 4*(ny-1)*(nx-1))))
    contract(P, ["pixell.enmap.fft","pixell.enmap.ifft","pixell.enmap.fft_adjoint","pixell.enmap.ifft_adjoint","pixell.enmap.dct","pixell.enmap.idct"], scope="all map sizes and pixel areas", samples=40, trusted=[FFTC], name="normalize_%s" % _norm)(_nrm)

# ---- polarisation rotations
TRIG = "cos and sin of a sum of angles"
for _spin in (1,2,3):
    def _queb(c, spin=_spin):
        E = c.mod("enmap"); ly, lx = c.real("ly", sample=(-3,3)), c.real("lx", sample=(-3,3))
        iau = c.choose("iau", [False,True]); l = c.arr([[[ly]],[[lx]]])
        with stub(c, E, samewcs=lambda a, *b: a) if c.symbolic else nullcontext():
            R, I = E.queb_rotmat(l, iau=iau, spin=spin), E.queb_rotmat(l, iau=iau, spin=spin, inverse=True); R2 = E.queb_rotmat(l, iau=not iau, spin=spin)
        g = lambda M, i, j: M[i,j,0,0]
        for i, j in itertools.product(range(2), range(2)):
            c.check("inverse", near0(c, sum([g(I,i,k)*g(R,k,j) for k in range(2)]), 1 if i == j else 0)); c.check("orthogonal", near0(c, sum([g(R,k,i)*g(R,k,j) for k in range(2)]), 1 if i == j else 0))
            c.check("IAU convention is the opposite rotation", near0(c, g(R2,i,j), g(I,i,j)))
        if c.symbolic:
            a = spin*sym.ufun("arctan2", lx if not iau else -lx, ly)
            c.check("E = Q cos - U sin, B = Q sin + U cos", And(Eq(g(R,0,0), sym.ufun("cos",a)), Eq(g(R,0,1), -sym.ufun("sin",a)), Eq(g(R,1,0), sym.ufun("sin",a)), Eq(g(R,1,1), sym.ufun("cos",a))))
        else:
            a = spin*math.atan2(lx,ly)*(-1 if iau else 1); c.check("E = Q cos - U sin, B = Q sin + U cos", np.allclose(R[:,:,0,0], [[math.cos(a),-math.sin(a)],[math.sin(a),math.cos(a)]]))
    contract(P, ["pixell.enmap.queb_rotmat"], scope="all wavevectors, spin %d" % _spin, samples=100, name="queb_spin%d" % _spin)(_queb)
def near0(c, a, b): return Eq(a, b) if c.symbolic else bool(abs(a-b) < 1e-9)
from contextlib import nullcontext

@contract(P, ["pixell.enmap.rotate_pol"], scope="all values, angles and spins; [4,1,1] and [2,3,1,1] maps, any pair of components", samples=150, trusted=[TRIG])
def rotate_pol(c):
    E = c.mod("enmap"); lay = c.choose("lay", ["first","comps","mid"]); spin = c.choose("spin", [1,2,3])
    ang, an2 = c.real("ang", sample=(-4,4)), c.real("an2", sample=(-4,4))
    shape, comps, axis = {"first":((3,1,1),[-2,-1],-3),"comps":((4,1,1),[2,0],-3),"mid":((2,3,1),[1,2],1)}[lay]
    n = int(np.prod(shape)); v = [c.real("v%d" % i, sample=(-3,3)) for i in range(n)]; m = c.arr(v).reshape(shape)
    r = E.rotate_pol(m, ang, comps=comps, spin=spin, axis=axis) if lay != "first" else E.rotate_pol(m, ang, spin=spin)
    cs, sn = (sym.ufun("cos", spin*ang), sym.ufun("sin", spin*ang)) if c.symbolic else (math.cos(spin*ang), math.sin(spin*ang))
    ax = axis % 3; ci = [k % shape[ax] for k in comps]; flat = np.arange(n).reshape(shape); rr = r.reshape(-1)
    for I in np.ndindex(*shape):
        k = I[ax]; J = list(I); src = lambda q: v[flat[tuple(J[:ax]+[q]+J[ax+1:])]]
        want = v[flat[I]] if k not in ci else (cs*src(ci[0])-sn*src(ci[1]) if k == ci[0] else sn*src(ci[0])+cs*src(ci[1]))
        c.check("component", near0(c, rr[flat[I]], want))
    c.check("argument kept", And(*[near0(c, m.reshape(-1)[i], v[i]) for i in range(n)]))
    back = E.rotate_pol(r, -ang, comps=comps, spin=spin, axis=axis).reshape(-1)
    c.check("opposite angle undoes it", And(*[near0(c, back[i], v[i]) for i in range(n)]))
    z = E.rotate_pol(m, ang, comps=comps, spin=0, axis=axis).reshape(-1); c.check("spin 0 does nothing", And(*[near0(c, z[i], v[i]) for i in range(n)]))

@bounded(P, ["pixell.enmap.spin_helper","pixell.enmap.spin_pre_helper"], "all spin lists of 1..3 entries over {0,1,2}, 1..9 components (complete)")
def spins(b):
    from pixell import enmap
    for k in (1,2,3):
        for sp in itertools.product((0,1,2), repeat=k):
            for n in range(1,10):
                b.case("spin", sp, n)
                # oracle: walk through the list
                want, i, ci, ok = [], 0, 0, True
                while i < n:
                    w = 1+(sp[ci] != 0)
                    if i+w > n: ok = False; break
                    want.append((sp[ci], i, i+w)); i += w; ci = (ci+1) % k
                if ok: b.check("components paired by spin", [tuple(int(v) for v in x) for x in enmap.spin_helper(list(sp), n)] == want)
                else: b.raises("unpaired component", lambda: list(enmap.spin_helper(list(sp), n)), IndexError)

# ---------------------------------------------------------------- bounded
def rnd(b, shape, cplx=False):
    a = b.nrng.standard_normal(shape)
    return a+1j*b.nrng.standard_normal(shape) if cplx else a

@bounded(P, ["pixell.fft.fft","pixell.fft.ifft","pixell.fft.rfft","pixell.fft.irfft","pixell.fft.dct","pixell.fft.idct","pixell.fft.redft00","pixell.fft.chebt","pixell.fft.ichebt","pixell.fft.shift","pixell.fft.asfcarray"], "random arrays of 1..3 axes of length 1..9, all installed engines, all axis choices, against the defining sums")
def engine(b):
    from pixell import fft
    rng = b.rng
    def dft(a, ax, sg=-1):
        n = a.shape[ax]; M = np.exp(sg*2j*np.pi*np.outer(np.arange(n),np.arange(n))/n); return np.moveaxis(np.tensordot(M, a, (1,ax)), 0, ax)
    for it in range(b.N(150)):
        nd = rng.randint(1,3); shape = tuple(rng.randint(1,9) for _ in range(nd)); na = rng.randint(1,nd); axes = rng.sample(range(nd), na)
        axes = [x-nd if rng.random() < 0.5 else x for x in axes]; cplx = rng.random() < 0.5; eng = rng.choice([e for e in ("numpy","ducc","auto") if e in fft.engines or e == "auto"])
        a = rnd(b, shape, cplx); a0 = a.copy(); N = np.prod([shape[x] for x in axes]); dt = rng.choice([np.float64,np.float32]) if not cplx else np.complex128
        b.case("fft", shape, axes, cplx, eng)
        want = a+0j
        for x in axes: want = dft(want, x)
        f = fft.fft(a, axes=axes, engine=eng); b.close("forward", f, want, atol=1e-9); b.eq("input kept", a, a0)
        b.close("backward", fft.ifft(f, axes=axes, engine=eng), a*N, atol=1e-8); b.close("normalized", fft.ifft(f, axes=axes, normalize=True, engine=eng), a+0j, atol=1e-9)
        out = np.zeros(shape, complex); r = fft.fft(a+0j, out, axes=axes, engine=eng); b.check("output array used", r is out); b.close("output", out, want, atol=1e-9)
        if na == 1: b.close("integer axis", fft.fft(a, axes=axes[0], engine=eng), want, atol=1e-9)
        if axes[-1] in (nd-1,-1) and na == 1: b.close("default axis", fft.fft(a, engine=eng), want, atol=1e-9); 
        if not cplx:
            rf = fft.rfft(a, axes=axes, engine=eng); n = shape[axes[-1]]; b.close("real transform is half of the complex one", rf, np.take(want, np.arange(n//2+1), axes[-1]), atol=1e-9)
            b.close("irfft", fft.irfft(rf, n=n, axes=axes, normalize=True, engine=eng), a, atol=1e-9)
            if n % 2 == 0: b.close("irfft even default", fft.irfft(rf, axes=axes, normalize=True, engine=eng), a, atol=1e-9)
            b.close("integers", fft.fft(np.round(a*5).astype(int), axes=axes, engine=eng), fft.fft(np.round(a*5), axes=axes, engine=eng))
            if "ducc" in fft.engines:
                for typ, f1 in (("DCT-I",-1),("DCT-II",0),("DCT-III",0),("DCT-IV",0),("DST-I",1),("DST-II",0),("DST-III",0),("DST-IV",0)):
                    if typ == "DCT-I" and any(shape[x] < 2 for x in axes): continue
                    t = fft.dct(a, axes=axes, type=typ, engine="ducc"); b.close(typ+" inverse", fft.idct(t, axes=axes, type=typ, normalize=True, engine="ducc"), a, atol=1e-9); b.close(typ+" unnormalized", fft.idct(t, axes=axes, type=typ, engine="ducc"), a*np.prod([2*(shape[x]+f1) for x in axes]), atol=1e-7)
            if shape[-1] >= 2:
                n = shape[-1]; j = np.arange(n); C = np.cos(np.pi*np.outer(j,j)/(n-1)); wts = np.where((j == 0)|(j == n-1), 1, 2)
                b.close("dct-I", fft.redft00(a), (a*wts)@C, atol=1e-9)
                ch = fft.chebt(a); b.close("chebyshev series reproduces the samples", ch@C, a, atol=1e-9); b.close("inverse chebyshev", fft.ichebt(ch), a, atol=1e-9); b.eq("input kept", a, a0)
        # shifts
        k = [rng.randint(-12,12) for x in axes]; sh = fft.shift(a, k, axes=axes, engine=eng); b.close("integer shift is a roll", sh, np.roll(a, k, [x % nd for x in axes]), atol=1e-9); b.eq("input kept", a, a0); b.check("kind kept", np.iscomplexobj(sh) == cplx)
        n = shape[-1]
        if n >= 3:
            q, ph, s = rng.randint(0,(n-1)//2), rng.uniform(0,6), rng.uniform(-3,3); t = np.arange(n)
            b.close("fractional shift", fft.shift(np.cos(2*np.pi*q*t/n+ph), s), np.cos(2*np.pi*q*(t-s)/n+ph), atol=1e-9)
            b.close("shift of a transform", fft.ifft(fft.shift(fft.fft(np.cos(2*np.pi*q*t/n+ph)), s, nofft=True), normalize=True).real, np.cos(2*np.pi*q*(t-s)/n+ph), atol=1e-9)

@bounded(P, ["pixell.fft.resample","pixell.fft.resample_fft","pixell.enmap.resample","pixell.enmap.resample_fft"], "random band-limited signals, all pairs of lengths 1..14 on 1..2 axes")
def resampling(b):
    from pixell import fft, enmap
    rng = b.rng
    for n1 in range(1,15):
        for n2 in range(1,15):
            K = (min(n1,n2)-1)//2; t = lambda n: np.arange(n)/n
            co = [(rng.uniform(-1,1), rng.uniform(0,6)) for _ in range(K+1)]
            f = lambda n: sum(a*np.cos(2*np.pi*k*t(n)+p) for k, (a,p) in enumerate(co))
            b.case("resample", n1, n2); a = f(n1); r = fft.resample(a, n2)
            b.check("length", r.shape == (n2,)); b.close("band-limited signal", r, f(n2), atol=1e-9)
            g = lambda n: sum((a+1j*p)*np.exp(2j*np.pi*k*(-1)**k*t(n)) for k, (a,p) in enumerate(co)); b.close("complex signal", fft.resample(g(n1), n2), g(n2), atol=1e-9)
            m1, m2 = rng.randint(1,9), rng.randint(1,9); L = (min(m1,m2)-1)//2; c2 = rng.randint(0,L)
            h = lambda n, m: f(n)[:,None]*np.cos(2*np.pi*c2*t(m)+0.3)[None,:]
            b.close("two axes", fft.resample(h(n1,m1), (n2,m2)), h(n2,m2), atol=1e-9); b.close("axis choice", fft.resample(h(n1,m1).T[:,None], n2, axes=[-1]), h(n2,m1).T[:,None], atol=1e-9)
            if n2 >= n1 and n1 % 2: x = b.nrng.standard_normal(n1); b.close("up and down is the identity", fft.resample(fft.resample(x, n2), n1), x, atol=1e-9)
            fa = fft.fft(a); out = np.ones(n2, complex); r2 = fft.resample_fft(fa, n2, norm=1/n1); b.close("transform", fft.ifft(r2), f(n2)+0j, atol=1e-9)
            out = np.ones(n2,complex); r3 = fft.resample_fft(fa, n2, out=out, op=lambda o, v: o+v); b.check("output array used", r3 is out); sel = r2 != 0; b.close("operation", out-1, r2*n1, atol=1e-8)

@bounded(P, ["pixell.enmap.fft","pixell.enmap.ifft","pixell.enmap.map2harm","pixell.enmap.harm2map","pixell.enmap.map2harm_adjoint","pixell.enmap.harm2map_adjoint","pixell.enmap.lmap","pixell.enmap.modlmap","pixell.enmap.laxes","pixell.enmap.lrmap","pixell.enmap.pix2l","pixell.enmap.l2pix","pixell.enmap.smooth_gauss","pixell.enmap.apply_window","pixell.enmap.unapply_window","pixell.enmap.fftshift","pixell.enmap.ifftshift","pixell.enmap.map_mul","pixell.enmap.lpixsize"], "random maps of 1..9 pixels a side, 1..5 components, 8 projections")
def fourier_maps(b):
    from pixell import enmap, utils, wcsutils
    rng = b.rng
    for it in range(b.N(150)):
        proj, (ny,nx), w = small_geo(rng)
        if proj != "plain":
            pos = np.array(w.wcs_pix2world([-0.5,nx-0.5,-0.5,nx-0.5], [-0.5,-0.5,ny-0.5,ny-0.5], 0))
            if not np.all(np.isfinite(pos)) or np.max(np.abs(pos[1])) > 75: continue
        pre = rng.choice([(),(3,),(2,3)]); m = enmap.ndmap(rnd(b, pre+(ny,nx)), w); m0 = m.copy()
        b.case(proj, pre, ny, nx, str(w))
        ext = enmap.extent((ny,nx), w, signed=True); k = [np.fft.fftfreq(n)*n for n in (ny,nx)]
        ly, lx = enmap.laxes(m.shape, w); b.close("ly", ly, 2*np.pi*k[0]/ext[0]); b.close("lx", lx, 2*np.pi*k[1]/ext[1])
        lm = enmap.lmap(m.shape, w); b.close("lmap", lm, np.array(np.broadcast_arrays(ly[:,None],lx[None,:]))); b.close("modlmap", m.modlmap(), np.hypot(lm[0],lm[1])); b.close("minimum", enmap.modlmap(m.shape, w, min=50), np.maximum(np.hypot(lm[0],lm[1]),50)); b.close("half plane", enmap.lrmap(m.shape, w), lm[...,:nx//2+1])
        b.close("lpixsize", enmap.lpixsize(m.shape, w), (2*np.pi)**2/enmap.area((ny,nx), w), rtol=1e-6)
        I = np.array([[rng.randrange(ny) for _ in range(4)],[rng.randrange(nx) for _ in range(4)]]); b.close("pix2l", enmap.pix2l(m.shape, w, I), lm[:,I[0],I[1]]); b.close("l2pix", enmap.l2pix(m.shape, w, lm[:,I[0],I[1]]), I, atol=1e-7)
        os = rng.randint(2,4)
        if min(ny,nx) > 2:
            oly, olx = enmap.laxes(m.shape, w, oversample=os); 
            for ol, l, n in ((oly,ly,ny),(olx,lx,nx)):
                r = ol/l[1]; q = (r-(np.arange(n*os)/os+(1/os-1)/2))/n; b.close("oversampled wavenumbers subdivide the plain ones", q, np.round(q), atol=1e-7); b.check("oversampled range", np.ptp(r) < n)
            b.check("size", len(oly) == ny*os and len(olx) == nx*os)
        for norm in (True,False,"phys"):
            f = enmap.fft(m, normalize=norm); fac = {True:(ny*nx)**-0.5,False:1}.get(norm, (m.pixsize()/(ny*nx))**0.5)
            b.close("fft", f, np.fft.fft2(m)*fac, atol=1e-9); b.check("geometry kept", wcsutils.equal(f.wcs, w)); b.close("inverse", enmap.ifft(f, normalize=norm), m*(1 if norm else ny*nx), atol=1e-8); b.eq("input kept", m, m0)
            if min(ny,nx) > 1: b.close("dct", enmap.idct(enmap.dct(m, normalize=norm), normalize=norm), m*(1 if norm else 4*(ny-1)*(nx-1)), atol=1e-8)
        # polarisation
        n = pre[-1] if pre else 1
        if pre:
            iau, norm = rng.choice([True,False]), rng.choice([True,False,"phys"]); spin = rng.choice([[0,2],[0],2,[0,1],[0,1]]) if n % 2 else [0,2]
            if np.max(np.atleast_1d(spin)) > 0 and np.ndim(spin) == 0: spin = [0,2]
            h = enmap.map2harm(m, normalize=norm, iau=iau, spin=spin); b.eq("input kept", m, m0); f = enmap.fft(m, normalize=norm)
            phi = np.arctan2(lm[1],lm[0])*(-1 if iau else 1); want = f.copy(); i = 0; sp = np.atleast_1d(spin); ci = 0
            while i < n:
                s = sp[ci % len(sp)]; ci += 1
                if s == 0: i += 1; continue
                Q, U = f[...,i,:,:], f[...,i+1,:,:]; want[...,i,:,:] = Q*np.cos(s*phi)-U*np.sin(s*phi); want[...,i+1,:,:] = Q*np.sin(s*phi)+U*np.cos(s*phi); i += 2
            b.close("map2harm", h, want, atol=1e-9); h0 = h.copy(); b.close("harm2map inverts", enmap.harm2map(h, normalize=norm, iau=iau, spin=spin), m*(1 if norm else ny*nx), atol=1e-8); b.eq("input kept", h, h0)
            y = enmap.ndmap(rnd(b, m.shape, True), w)
            b.close("adjoint of map2harm", np.vdot(h, y), np.vdot(m+0j, enmap.map2harm_adjoint(y, normalize=norm, iau=iau, spin=spin, keep_imag=True)), rtol=1e-8, atol=1e-9)
            b.close("adjoint of harm2map", np.vdot(enmap.harm2map(y, normalize=norm, iau=iau, spin=spin, keep_imag=True), m+0j), np.vdot(y, enmap.harm2map_adjoint(m+0j, normalize=norm, iau=iau, spin=spin)), rtol=1e-8, atol=1e-9)
        # filters
        s = rng.uniform(0.1,2)*np.min(np.abs(ext))/max(ny,nx); L2 = lm[0]**2+lm[1]**2; g = np.exp(-0.5*L2*s**2)
        sm = enmap.smooth_gauss(m, s); b.close("gaussian", enmap.fft(sm), enmap.fft(m)*g, atol=1e-9); b.close("complement", enmap.smooth_gauss(m, -s)+sm, m, atol=1e-9); b.close("no smoothing", enmap.smooth_gauss(m, 0), m); b.eq("input kept", m, m0)
        o = rng.choice([0,1,None]); wy, wx = enmap.calc_window(m.shape, order=o); b.close("window is 1 for constants", [wy[0],wx[0]], [1,1]); ap = enmap.apply_window(m, order=o); b.close("window", enmap.fft(ap), enmap.fft(m)*wy[:,None]*wx[None,:], atol=1e-9)
        if o == 0: b.close("nearest-neighbour window", wy, np.sinc(np.fft.fftfreq(ny))); b.close("window x", wx, np.sinc(np.fft.fftfreq(nx)))
        b.close("unapply", enmap.unapply_window(ap, order=o), m, atol=1e-8); b.close("power", enmap.apply_window(enmap.apply_window(m, pow=0.5, order=o), pow=0.5, order=o), ap, atol=1e-9); b.eq("input kept", m, m0)
        b.close("fftshift", enmap.fftshift(m), np.fft.fftshift(m,(-2,-1))); b.close("ifftshift", enmap.ifftshift(enmap.fftshift(m)), m)
        A = b.nrng.standard_normal((2,3,ny,nx)); v = enmap.ndmap(b.nrng.standard_normal((3,ny,nx)), w); b.close("matrix product", enmap.map_mul(A, v), np.einsum("abyx,byx->ayx", A, v)); b.close("scalar product", enmap.map_mul(A[0,0], v), A[0,0]*v)

@bounded(P, ["pixell.enmap.resample","pixell.enmap.resample_fft","pixell.resample.resample","pixell.resample.resample_fft","pixell.resample.resample_fft_simple","pixell.resample.resample_bin","pixell.resample.downsample_bin","pixell.resample.upsample_bin"], "random periodic band-limited maps and arrays, sizes 1..12 to 1..12, odd and even")
def resample_maps(b):
    from pixell import enmap, resample, wcsutils
    rng = b.rng
    for it in range(b.N(300)):
        n1, n2 = [tuple(rng.randint(1,12) for _ in range(2)) for _ in range(2)]; K = [(min(p,q)-1)//2 for p, q in zip(n1,n2)]
        modes = [(rng.randint(-K[0],K[0]), rng.randint(-K[1],K[1]), rng.uniform(-1,1), rng.uniform(0,6)) for _ in range(4)]
        def f(n, corner=False):
            # function of the position on the patch, pixel (0,0) of the input at 0 or its corner at 0
            y, x = np.mgrid[0:n[0],0:n[1]]; y, x = ((y+0.5*corner)/n[0], (x+0.5*corner)/n[1])
            return sum(a*np.cos(2*np.pi*(p*y+q*x)+h) for p, q, a, h in modes)
        corner = rng.random() < 0.5; w = geo.real_wcs("car", [2.0,3.0], [-0.5,0.7], [10.0,0.0]); pre = rng.choice([(),(2,)])
        m = enmap.ndmap(np.broadcast_to(f(n1,corner), pre+n1).copy(), w); m0 = m.copy(); b.case("enmap.resample", n1, n2, corner, modes)
        r = enmap.resample(m, n2, corner=corner); b.check("shape", r.shape == pre+n2); b.close("band-limited map", r, np.broadcast_to(f(n2,corner), pre+n2), atol=1e-8); b.eq("input kept", m, m0)
        o = 0.5 if corner else 0; a1 = enmap.pix2sky(m.shape, w, [[-o],[-o]]); a2 = enmap.pix2sky(r.shape, r.wcs, [[-o],[-o]]); b.close("same origin on the sky", a1, a2, atol=1e-9)
        b.close("pixel size", r.wcs.cdelt if False else r.wcs.wcs.cdelt*np.array(n2)[::-1], w.wcs.cdelt*np.array(n1)[::-1], rtol=1e-9)
        norm, nz = rng.choice([("plain",False),("pix",True),("phys","phys")])
        if norm != "phys": b.close("fourier normalization "+norm, enmap.ifft(enmap.resample_fft(enmap.fft(m, normalize=nz), n2, corner=corner, norm=norm), normalize=nz).real, r*(1 if nz else np.prod(n2)), atol=1e-6)
        fm = enmap.fft(m); ref = enmap.resample_fft(fm, n2, corner=corner); fo = enmap.fft(enmap.rand_gauss(ref.shape, ref.wcs)); f0 = fo.copy(); r2 = enmap.resample_fft(fm, n2, fomap=fo, corner=corner, op=np.add)
        b.check("given array used", r2 is fo or np.shares_memory(r2, fo)); b.close("added to what was there", r2, f0+ref, atol=1e-8*(1+np.max(np.abs(ref))))
        # plain arrays
        d = rng.randint(1,3); sh = tuple(rng.randint(1,9) for _ in range(d)); na = rng.randint(1,d); axes = rng.sample(range(-d,0), na); n = [rng.randint(1,12) for _ in axes]; cplx = rng.random() < 0.4
        b.case("resample_fft", sh, axes, n, cplx)
        ks = {ax: rng.randint(0,(min(sh[ax],k)-1)//2) for ax, k in zip(axes,n)}
        def g(shape):
            out = np.ones(shape, complex if cplx else float)
            for ax in range(-d,0):
                t = np.arange(shape[ax]); k = ks.get(ax); v = (1.0+t if k is None else (np.exp(2j*np.pi*k*t/shape[ax]) if cplx else np.cos(2*np.pi*k*t/shape[ax]+0.4)))
                out = out*v.reshape((-1,)+(1,)*(-ax-1))
            return out
        osh = list(sh)
        for ax, k in zip(axes,n): osh[ax] = k
        a = g(sh); rr = resample.resample_fft(a, n, axes); b.check("shape", rr.shape == tuple(osh), rr.shape); b.close("band-limited array", rr, g(tuple(osh)), atol=1e-8)
        st = [rng.randint(1,3) for _ in axes]; srt = sorted(zip(axes,st)); x = b.nrng.standard_normal(sh)
        want = x
        for ax, s in zip(axes, st): q = sh[ax]//s; want = np.moveaxis(np.moveaxis(want,ax,-1)[...,:q*s].reshape(np.moveaxis(want,ax,-1).shape[:-1]+(q,s)).mean(-1),-1,ax)
        b.case("bins", sh, axes, st)
        if min(osh) > 0 and all(sh[ax] >= s for ax, s in zip(axes,st)): b.close("bin averages", resample.downsample_bin(x, st, axes), want, atol=1e-12)
        up = x
        for ax, s in zip(axes, st): up = np.repeat(up, s, ax)
        b.close("repeated bins", resample.upsample_bin(x, st, axes), up)
        if axes == sorted(axes) and axes == list(range(-na,0)): b.close("default axes", resample.upsample_bin(x, st), up)

@bounded(P, ['pixell.enmap.ndmap.laxes', 'pixell.enmap.ndmap.lmap', 'pixell.enmap.ndmap.lform', 'pixell.enmap.ndmap.modlmap', 'pixell.enmap.ndmap.modrmap', 'pixell.enmap.ndmap.l2pix', 'pixell.enmap.ndmap.pix2l', 'pixell.enmap.Geometry.l2pix', 'pixell.enmap.Geometry.pix2l'], "the map methods of these functions: every argument, and the defaults (one call each)", name="methods_stand_for_functions")
def methods_stand_for_functions(b):
    from pixell import enmap
    from vp.forward import forwarding
    w = geo.real_wcs("car", [3.0,2.0], [-10.0,10.0], [0.0,0.0]); m = enmap.ndmap(np.arange(20.0).reshape(4,5), w)
    forwarding(b, m, enmap.ndmap, enmap, ['laxes', 'lmap', 'lform', 'modlmap', 'modrmap', 'l2pix', 'pix2l'])
    forwarding(b, enmap.Geometry((4,5), w), enmap.Geometry, enmap, ['l2pix', 'pix2l'])
