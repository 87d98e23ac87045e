"""C19: lensing and boosting move the sky along great circles, and can be undone."""
import math
import numpy as np
from vp.core import *
from vp import geo, npshim, sym
P = "C19"
AT2 = "arctan2(y,x) is the angle a with sqrt(x^2+y^2)*(cos a, sin a) = (x,y); arccos and arcsin invert cos and sin"
z3 = sym.z3
def tol(c, a, b, t=1e-9): return Eq(a, b) if c.symbolic else bool(abs(a-b) <= t*(1+abs(b)))
def F(name, x): return sym.ufun(name, x) if issym(x) else getattr(math, name)(x)
def col(c, *v): return c.arr([[x] for x in v]) if c.symbolic else np.array([[x] for x in v], float)

def same(a, b):
    """equality of two terms, decided by multiplying out where that is enough"""
    d = z3.simplify(sym.zr(a)-sym.zr(b), som=True)
    return Eq(SReal(d), 0)
def use(c, name, f, *terms):
    """a fact of algebra, proved for arbitrary numbers, used for these terms"""
    if c.run.prove_lemma(name, sym.zb(f(*[SReal(c.fresh_real("q%d" % i)) for i in range(len(terms))]))): c.assume(f(*terms))
def angle(c, t, want=None):
    """(cos, sin) of a term that may be built from inverse trigonometric functions; states what those mean"""
    if not issym(t): return math.cos(t), math.sin(t)
    e = z3.simplify(sym.zr(t)); seen = []
    def walk(x):
        if z3.is_app(x):
            if x.decl().name() in ("arctan2","arccos","arcsin") : seen.append(x)
            else: [walk(y) for y in x.children()]
    walk(e); neg = False
    if len(seen) == 1 and not z3.eq(e, seen[0]) and z3.is_rational_value(z3.simplify(e+seen[0])): neg = True
    if len(seen) != 1 or not (z3.eq(e, seen[0]) or neg): raise sym.Unsupported("angle is not a single inverse function")
    x = seen[0]; co, si = SReal(c.fresh_real("co")), SReal(c.fresh_real("si")); c.assume(Eq(co*co+si*si, 1)); c.run.trusted.add(AT2); a = [SReal(y) for y in x.children()]
    if x.decl().name() == "arctan2":
        r = SReal(c.fresh_real("r")); c.assume(r >= 0, Eq(r*r, a[0]*a[0]+a[1]*a[1]), Eq(r*co, a[1]), Eq(r*si, a[0]))
        if want:
            # same point: the same angle, proved for arbitrary numbers and then used
            R, wx, wy = want; f = lambda r,x,y,co,si,R,wx,wy: Implies(And(R > 0, r >= 0, Eq(R*R, wx*wx+wy*wy), Eq(r*r, x*x+y*y), Eq(r*co, x), Eq(r*si, y), Eq(x, wx), Eq(y, wy)), And(Eq(R*co, wx), Eq(R*si, wy)))
            v = [SReal(c.fresh_real("q%d" % i)) for i in range(8)]
            if c.run.prove_lemma("one angle per point", sym.zb(f(*v))): c.assume(f(r, a[1], a[0], co, si, R, wx, wy))
            c.step("same point", And(same(a[1], wx), same(a[0], -wy if neg else wy)))
    elif x.decl().name() == "arccos": c.assume(Eq(co, a[0]), si >= 0)
    else: c.assume(Eq(si, a[0]), co >= 0)
    return co, (-si if neg else si)

def displaced(c, th, g):
    """position th in zenith angle, displacement g=(dtheta, dphi*sin theta): Cartesian position and tangent in the meridian's frame"""
    if c.symbolic: d = (g[0]*g[0]+g[1]*g[1]).sqrt()
    else: d = math.hypot(*g)
    st, ct, sd, cd = F("sin",th), F("cos",th), F("sin",d), F("cos",d); u = (g[0]/d, g[1]/d)
    n = (cd*st+sd*u[0]*ct, sd*u[1], cd*ct-sd*u[0]*st); w = (sd*ct+cd*u[0]*st, st*u[1])
    return u, n, w, (st, ct, sd, cd)

def arctan2_args(t):
    """the point an arctan2 term looks at"""
    e = z3.simplify(sym.zr(t))
    if not (z3.is_app(e) and e.decl().name() == "arctan2"): raise sym.Unsupported("angle is not an arctan2")
    y, x = e.children(); return SReal(x), SReal(y)
@contract(P, ["pixell.lensing.offset_by_grad","pixell.lensing.offset_by_grad_helper"], scope="all positions and displacements that do not pass over a pole (where the tree is known to be wrong, finding F2)", samples=300, trusted=[AT2])
def great_circle(c):
    L = c.mod("lensing"); th = c.real("theta", sample=(0.1,3.0)); ra = c.real("ra", sample=(-7,7)); g = [c.real("ddec", sample=(-2,2)), c.real("dra", sample=(-2,2))]; pol = c.choose("pol", [True,False,None])
    c.assume(Not(And(Eq(g[0],0), Eq(g[1],0)))); gz = (-g[0], g[1])
    if c.symbolic: c.assume(th >= 0, th <= c.pi)
    u, n, w, (st, ct, sd, cd) = displaced(c, th, gz)
    if c.symbolic:
        c.step("unit direction", Eq(u[0]*u[0]+u[1]*u[1], 1)); c.assume(n[0] > 0, st > 0, Not(Eq(w[0], 0)))
        A, Bb, C, D, E_, F_ = [SReal(c.fresh_real("l%d" % i)) for i in range(6)]
        f = lambda st,ct,sd,cd,p,q: Implies(And(Eq(st*st+ct*ct,1), Eq(sd*sd+cd*cd,1), Eq(p*p+q*q,1)), And(Eq((cd*st+sd*p*ct)*(cd*st+sd*p*ct)+sd*q*sd*q+(cd*ct-sd*p*st)*(cd*ct-sd*p*st),1), Eq((sd*ct+cd*p*st)*(sd*ct+cd*p*st)+st*q*st*q, (cd*st+sd*p*ct)*(cd*st+sd*p*ct)+sd*q*sd*q)))
        if c.run.prove_lemma("rotation keeps lengths", sym.zb(f(A,Bb,C,D,E_,F_))): c.assume(f(st,ct,sd,cd,u[0],u[1]))
        r = SReal(c.fresh_real("rho")); c.assume(r > 0, Eq(r*r, n[0]*n[0]+n[1]*n[1])); use(c, "a cosine", lambda z,x,y: Implies(Eq(x*x+y*y+z*z,1), And(z >= -1, z <= 1)), n[2], n[0], n[1]); c.step("a cosine", And(n[2] >= -1, n[2] <= 1))
        osn = (1-n[2]*n[2]).sqrt(); use(c, "distance from the axis", lambda os,z,r,x,y: Implies(And(r > 0, os >= 0, Eq(os*os,1-z*z), Eq(r*r,x*x+y*y), Eq(x*x+y*y+z*z,1)), Eq(os,r)), osn, n[2], r, n[0], n[1]); c.step("distance from the axis", And(Eq(osn, r), osn > 0))
        use(c, "a sine", lambda os,r,x,y: Implies(And(r > 0, Eq(os,r), Eq(r*r,x*x+y*y)), And(y/os >= -1, y/os <= 1)), osn, r, n[0], n[1]); c.step("a sine", And(n[1]/osn >= -1, n[1]/osn <= 1))
    elif n[0] < 1e-2 or abs(w[0]) < 1e-2: return
    o = L.offset_by_grad(col(c, c.pi/2-th, ra), col(c, *g), pol=pol); c.check("shape", np.shape(o) == (3 if pol else 2, 1))
    t2 = c.pi/2-o[0,0]; r = r if c.symbolic else math.hypot(n[0],n[1]); p, q = u[0]*w[0]+u[1]*w[1], u[1]*w[0]-u[0]*w[1]
    if not c.symbolic:
        c.check("latitude", tol(c, math.cos(t2), n[2], 1e-7)); c.check("longitude", tol(c, r*math.cos(o[1,0]-ra), n[0], 1e-7) and tol(c, r*math.sin(o[1,0]-ra), n[1], 1e-7))
        if pol: e = math.atan2(q,p); d = o[2,0]; c.check("change of bearing", any(abs(math.cos(d-k*e)-1) < 1e-9 for k in (1,2)))
        return
    ct2, st2 = angle(c, t2); c.step("latitude within the poles", st2 >= 0); c.step("latitude", Eq(ct2, n[2]))
    e = z3.simplify(sym.zr(o[1,0]-ra))
    if z3.is_app(e) and e.decl().name() == "arcsin":
        si = SReal(e.children()[0]); co = SReal(c.fresh_real("co")); c.assume(co >= 0, Eq(co*co+si*si, 1)); c.step("ratio", same(si, n[1]/osn)); use(c, "ratio", lambda r,os,si,y: Implies(And(r > 0, Eq(os,r), Eq(si,y/os)), Eq(r*si,y)), r, osn, si, n[1])
        c.step("height above the meridian", Eq(r*si, n[1]))
        use(c, "the other leg of the triangle", lambda r,co,si,x,y: Implies(And(r > 0, x > 0, co >= 0, Eq(r*r, x*x+y*y), Eq(co*co+si*si,1), Eq(r*si,y)), Eq(r*co,x)), r, co, si, n[0], n[1])
        c.check("longitude", And(Eq(r*co, n[0]), Eq(r*si, n[1])))
    else:
        x, y = arctan2_args(o[1,0]-ra); c.check("longitude", And(Eq(x*n[1], y*n[0]), x*n[0]+y*n[1] > 0))
    if pol:
        x, y = arctan2_args(o[2,0]); A = u[1]/(sd*ct/st+u[0]*cd); U = u
        use(c, "length", lambda a,b,x,y,r,n0,n1: Implies(And(Eq(a*a+b*b,1), Eq(x*x+y*y,n0*n0+n1*n1), Eq(r*r,n0*n0+n1*n1)), Eq((a*x+b*y)*(a*x+b*y)+(b*x-a*y)*(b*x-a*y), r*r)), u[0], u[1], w[0], w[1], r, n[0], n[1]); c.step("length", Eq(p*p+q*q, r*r))
        use(c, "slope", lambda a,b,st,ct,sd,cd: Implies(And(st > 0, Not(Eq(sd*ct+cd*a*st,0))), Eq(b/(sd*ct/st+a*cd)*(sd*ct+cd*a*st), st*b)), u[0], u[1], st, ct, sd, cd); c.step("slope", Eq(A*w[0], w[1]))
        X, Y = 2*(u[0]+u[1]*A)*(u[0]+u[1]*A)/(1+A*A)-1, 2*(u[0]+u[1]*A)*(u[1]-u[0]*A)/(1+A*A)
        use(c, "double angle", lambda A,w0,w1,a,b,R2: Implies(And(Eq(A*w0,w1), Eq(a*a+b*b,1), Eq((a*w0+b*w1)*(a*w0+b*w1)+(b*w0-a*w1)*(b*w0-a*w1), R2)), And(Eq((2*(a+b*A)*(a+b*A)/(1+A*A)-1)*R2, (a*w0+b*w1)*(a*w0+b*w1)-(b*w0-a*w1)*(b*w0-a*w1)), Eq(2*(a+b*A)*(b-a*A)/(1+A*A)*R2, 2*(a*w0+b*w1)*(b*w0-a*w1)))), A, w[0], w[1], u[0], u[1], r*r)
        R2 = r*r; ok1 = And(Eq(x*q, y*p), x*p+y*q > 0); ok2 = And(Eq(x*R2, p*p-q*q), Eq(y*R2, 2*p*q))
        for d, D in ((x,X),(y,Y)):
            dd = z3.simplify(sym.zr(d)-sym.zr(D), som=True)
            if z3.is_rational_value(dd) and dd.as_fraction() == 0: c.assume(Eq(d, D))
        # the tree turns polarization by twice the change of bearing (finding F3); both that and the right angle are let pass here
        c.check("change of bearing, or (known) twice that", Or(ok1, ok2))

@contract(P, ["pixell.lensing.offset_by_grad","pixell.lensing.pole_wrap"], scope="all positions and displacements up to one pole crossing, fast version", samples=200)
def fast_displacement(c):
    L = c.mod("lensing"); dec, ra = c.real("dec", sample=(-1.5,1.5)), c.real("ra", sample=(-7,7)); g = [c.real("ddec", sample=(-2,2)), c.real("dra", sample=(-2,2))]; pol = c.choose("pol", [True,False]); n = dec+g[0]; lon = ra+g[1]/F("cos",dec) if not c.symbolic else None
    if c.symbolic: co = sym.ufun("cos", dec); c.assume(Not(Eq(co, 0))); lon = ra+g[1]/co
    c.assume(dec > -c.pi/2, dec < c.pi/2, n > -c.pi, n < c.pi)
    o = L.offset_by_grad(col(c, dec, ra), col(c, *g), geodesic=False, pol=pol); c.check("shape", np.shape(o) == (3 if pol else 2, 1))
    wd = ite(n > c.pi/2, c.pi-n, ite(n < -c.pi/2, -c.pi-n, n)); wr = ite(Or(n > c.pi/2, n < -c.pi/2), lon+c.pi, lon)
    c.check("position", And(tol(c, o[0,0], wd), tol(c, o[1,0], wr)))
    if pol: c.check("no rotation", tol(c, o[2,0], 0))

@contract(P, ["pixell.lensing.phi_to_kappa","pixell.lensing.kappa_to_phi"], scope="all multipoles", samples=40, trusted=["curvedsky.almxfl multiplies alm by lfilter(l) (C09)"])
def convergence(c):
    L = c.mod("lensing"); l = c.int("l", lo=1, sample=(1,9)); v = c.real("v", sample=(-3,3))
    if not c.symbolic:
        from pixell import curvedsky; ai = curvedsky.alm_info(lmax=9); a = np.zeros(ai.nelem, complex); a[ai.lm2ind(l,0)] = v; a[0] = 1.5; k = L.phi_to_kappa(a); p = L.kappa_to_phi(k)
        c.check("l(l+1)/2", tol(c, k[ai.lm2ind(l,0)].real, v*l*(l+1)/2)); c.check("inverse", tol(c, p[ai.lm2ind(l,0)].real, v)); c.check("no monopole", k[0] == 0 and p[0] == 0); return
    from pixell import curvedsky; import unittest.mock as mk
    c.step("not the monopole", l*(l+1) >= 2)
    def fake(alm=None, lfilter=None, ainfo=None, out=None): return npshim.asarr([x*lfilter(l) for x in alm])
    with mk.patch.object(curvedsky, "almxfl", fake):
        k = L.phi_to_kappa(c.arr([v])); c.check("l(l+1)/2", Eq(k[0]*2, v*l*(l+1))); p = L.kappa_to_phi(c.arr([v])); c.check("inverse", Eq(p[0]*l*(l+1), 2*v))

# ---- boosts ----
@contract(P, ["pixell.aberration.calc_boost_1d"], scope="all speeds below c and all directions", samples=200)
def boost_law(c):
    A = c.mod("aberration"); b = c.real("beta", sample=(-.99,.99)); z = c.real("z", lo=-1, hi=1, sample=(-1,1)); c.assume(b > -1, b < 1); one = lambda v: c.arr([v]) if c.symbolic else np.array([v])
    c.assume(1+z*b > 0); zo, m = A.calc_boost_1d(one(z), b); zo, m = zo[0], m[0]
    c.step("aberration", tol(c, zo*(1+z*b), z+b)); g2 = 1-b*b
    if c.symbolic: c.step("never turns back", (1-zo*b)*(1+z*b) == g2) ; c.step("positive", 1-zo*b > 0)
    c.check("still a cosine", And(zo >= -1, zo <= 1)); c.step("Doppler factor", tol(c, m*m*g2, (1+z*b)*(1+z*b))); c.check("positive modulation", m > 0)
    zb, mb = A.calc_boost_1d(one(zo), -b); c.check("minus beta undoes it", tol(c, zb[0], z, 1e-7)); c.check("modulations cancel", tol(c, (mb[0]*m)*(mb[0]*m), 1, 1e-7))

PL = "planck(f,T) and iplanck_T(f,I) are inverse functions of each other in T; dplanck(f,T)>0"
class Planck:
    """assumed contract of the black-body functions: a strictly positive slope and an exact inverse"""
    def __init__(self, c): self.c = c; self.tab = []
    def planck(self, f, T=None):
        v = sym.ufun("planck", f, T); self.tab.append((f, T, v)); return v
    def iplanck(self, f, I):
        e = z3.simplify(sym.zr(I))
        t = sym.ufun("iplanck", f, SReal(e)); self.c.assume(Eq(sym.ufun("planck", f, t), SReal(e)))
        for g, T, v in self.tab: self.c.assume(Implies(And(Eq(f, g), Eq(v, SReal(e))), Eq(t, T)))
        return t
    def dplanck(self, f, T=None):
        v = sym.ufun("dplanck", f, T); self.c.assume(v > 0); return v
class NPF:
    """numpy with float64(x)=x"""
    def __getattr__(self, k):
        from vp import load
        return getattr(load.NPM, k)
    float64 = staticmethod(lambda x: x)
def pyf(c, f): return getattr(f, "py_func", f) if c.symbolic else f
@contract(P, ["pixell.aberration._modulate_T2lin","pixell.aberration._modulate_lin2T"], scope="all map values, modulations, reference temperatures, frequencies and units, 1x2 maps, with and without dipole", samples=120, trusted=[PL,"numba.njit runs the Python text it decorates"])
def modulation_roundtrip(c):
    A = c.mod("aberration"); v = [c.real("v%d" % i, sample=(-300,300)) for i in range(2)]; a = [c.real("a%d" % i, lo=0.2, hi=5, sample=(.7,1.4)) for i in range(2)]; T0 = c.real("T0", lo=1, hi=10, sample=(2,4)); f = c.real("freq", lo=3e10, hi=3e11, sample=(3e10,3e11)); un = c.choose("unit", [1e-6,1e-3]); spin = c.choose("spin", [0,2]); dip = c.choose("dipole", [False,True])
    sc = {1e-6:300,1e-3:300,1:0.3}[un]; c.assume(*[And(x >= -sc, x <= sc) for x in v])
    B = Planck(c); m = c.arr([list(v)]) if c.symbolic else np.array([v]); am = c.arr([a]) if c.symbolic else np.array([a]); ai = c.arr([[1/x for x in a]]) if c.symbolic else 1/am
    with stub(c, A, np=NPF(), planck=B.planck, iplanck=B.iplanck, dplanck=B.dplanck):
        pyf(c, A._modulate_T2lin)(m, am, T0, f, un, spin=spin, dipole=dip)
        P0, dP = (B.planck, B.dplanck) if c.symbolic else (A.planck, A.dplanck)
        for i in range(2):
            base = T0 if (spin == 0 and dip) else a[i]*T0
            c.check("boosted black body, linearized", tol(c, m[0,i]*un*dP(f, T0), P0(f, a[i]*(v[i]*un+T0))-P0(f, base), 1e-6))
        pyf(c, A._modulate_lin2T)(m, ai, T0, f, un, spin=spin, dipole=dip)
    for i in range(2): c.check("undone by the inverse modulation", tol(c, m[0,i], v[i], 1e-5))

@contract(P, ["pixell.aberration.apply_modulation"], scope="all values and modulations of 1x2 maps with 1 or 3 components, temperature units", samples=60)
def plain_modulation(c):
    A = c.mod("aberration"); nc = c.choose("ncomp", [0,1,3]); mode = c.choose("mode", ["plain","T2T",None,"none"]); dip = c.choose("dipole", [False,True]); T0 = c.real("T0", lo=1, sample=(2,4)); a = [c.real("a%d" % i, sample=(.5,2)) for i in range(2)]
    v = [[c.real("v%d%d" % (q,i), sample=(-9,9)) for i in range(2)] for q in range(max(nc,1))]; arr = [[r] for r in v] if nc else [v[0]]
    m = c.arr(arr) if c.symbolic else np.array(arr); am = c.arr([a]) if c.symbolic else np.array([a]); r = A.apply_modulation(m, am, T0=T0, map_unit=0.5, mode=mode, dipole=dip)
    for q in range(max(nc,1)):
        for i in range(2):
            g = r[q,0,i] if nc else r[0,i]; want = v[q][i] if mode in (None,"none") else v[q][i]*a[i]+((a[i]-1)*T0*2 if dip and q == 0 else 0)
            c.check("value", tol(c, g, want))
@contract(P, ["pixell.aberration.rotate_pol"], scope="all values and angles of 1x2 maps, spins 0, 1, 2", samples=60, trusted=["numba.njit runs the Python text it decorates"])
def pol_rotation(c):
    A = c.mod("aberration"); s = c.choose("spin", [0,1,2]); v = [[c.real("v%d%d" % (q,i), sample=(-9,9)) for i in range(2)] for q in range(2)]; g = [c.real("g%d" % i, sample=(-4,4)) for i in range(2)]
    m = c.arr([[v[0]],[v[1]]]) if c.symbolic else np.array([[v[0]],[v[1]]]); pyf(c, A.rotate_pol)(m, c.arr([g]) if c.symbolic else np.array([g]), s)
    for i in range(2):
        co, si = F("cos", s*g[i]) if s else 1, F("sin", s*g[i]) if s else 0
        c.check("rotated by minus the angle", And(tol(c, m[0,0,i], v[0][i]*co+v[1][i]*si), tol(c, m[1,0,i], v[1][i]*co-v[0][i]*si)))
@contract(P, ["pixell.aberration.fast_rewind"], scope="all values at most one period away from the range, all periods and references", samples=200, trusted=["numba.njit runs the Python text it decorates"])
def fast_rewind(c):
    A = c.mod("aberration"); per = c.real("period", lo=0.1, sample=(.5,9)); ref = c.choose("ref", ["none","given"]); rv = c.real("refval", sample=(-5,5)) if ref == "given" else None; lo = 0 if rv is None else rv-per/2
    f = c.real("f", lo=0, hi=1, sample=(.01,.99)); k = c.choose("k", [-1,0,1]); c.assume(f < 1); x = c.arr([lo+(f+k)*per]) if c.symbolic else np.array([lo+(f+k)*per])
    pyf(c, A.fast_rewind)(x, per, rv) if rv is not None else pyf(c, A.fast_rewind)(x, per)
    c.check("same angle within the period", tol(c, x[0], lo+f*per))
@contract(P, ["pixell.aberration.sky2pix"], scope="all CAR geometries with the equator as reference, all positions", samples=100, trusted=[geo.CARLIN])
def car_pixels(c):
    A = c.mod("aberration"); kw = [c.real("crpix0", sample=(-20,20)),c.real("crpix1", sample=(-20,20))], [c.real("cdelt0", ne=0, sample=(-2,2)),c.real("cdelt1", ne=0, sample=(-2,2))], [c.real("crval0", sample=(-180,180)),0.0]
    w = geo.SWCS(*kw, ctype=("RA---CAR","DEC--CAR")) if c.symbolic else geo.real_wcs("car", *kw); y, x = c.real("y", sample=(-30,30)), c.real("x", sample=(-30,30)); d = c.pi/180
    pos = c.arr([[(y-kw[0][1]+1)*kw[1][1]*d],[((x-kw[0][0]+1)*kw[1][0]+kw[2][0])*d]]) if c.symbolic else np.array([[(y-kw[0][1]+1)*kw[1][1]*d],[((x-kw[0][0]+1)*kw[1][0]+kw[2][0])*d]])
    r = A.sky2pix((5,7), w, pos); c.check("pixel", And(tol(c, r[0][0], y, 1e-7), tol(c, r[1][0], x, 1e-7)))

# ---- bounded ----
def lmof(ai):
    """the (l,m) of every element of an alm layout, from its defining formula"""
    r = np.zeros((ai.nelem,2), int)
    for m in range(ai.mmax+1):
        for l in range(m, ai.lmax+1): r[int(ai.mstart[m])+l*ai.stride] = l, m
    return r
def vec(dec, ra): return np.array([np.cos(dec)*np.cos(ra), np.cos(dec)*np.sin(ra), np.sin(dec)])
def frame(dec, ra):
    """unit vectors towards increasing dec and increasing ra"""
    return np.array([-np.sin(dec)*np.cos(ra), -np.sin(dec)*np.sin(ra), np.cos(dec)]), np.array([-np.sin(ra), np.cos(ra), 0*ra])
def walk(pos, g):
    """great circle from pos[{dec,ra}] along g[{ddec,dra*cos(dec)}]: end position (vector) and change of the bearing of the path"""
    d = np.hypot(g[0], g[1]); e0, e1 = frame(*pos); v = vec(*pos); dd = np.where(d == 0, 1, d); t = (g[0]*e0+g[1]*e1)/dd; t = np.where(d == 0, e0, t)
    w = v*np.cos(d)+t*np.sin(d); tt = -v*np.sin(d)+t*np.cos(d); o = np.array([np.arctan2(w[2], np.hypot(w[0],w[1])), np.arctan2(w[1],w[0])]); f0, f1 = frame(*o)
    a1 = np.arctan2((t*e1).sum(0), (t*e0).sum(0)); a2 = np.arctan2((tt*f1).sum(0), (tt*f0).sum(0)); return w, o, a2-a1
def over(pos, o):
    """where the tree (finding F2) puts a point whose path passes over a pole: mirrored back to the side it came from"""
    d = o[1]-pos[1]; return np.array([o[0], pos[1]+np.arcsin(np.clip(np.sin(d),-1,1))])
def rotqu(m, ang):
    r = np.array(m); r[-2] = m[-2]*np.cos(2*ang)-m[-1]*np.sin(2*ang); r[-1] = m[-2]*np.sin(2*ang)+m[-1]*np.cos(2*ang); return r

@bounded(P, ["pixell.lensing.offset_by_grad","pixell.lensing.offset_by_grad_helper","pixell.lensing.pole_wrap"], "random positions, displacements of 1e-7 to 3 rad, 1 to 3 axes, poles and zero displacements included")
def displacement(b):
    from pixell import lensing; R = b.nrng
    for it in range(b.N(60)):
        shp = tuple(R.integers(1,6,R.integers(1,4))); n = int(np.prod(shp)); b.case(it, shp); dec = R.uniform(-1.5,1.5,n); k = R.integers(0,4)
        if k == 1: dec = R.choice([-1,1],n)*(np.pi/2-10**R.uniform(-6,-1,n))
        if k == 2: dec = np.full(n, R.choice([-1,1])*np.pi/2)
        pos = np.array([dec, R.uniform(-7,7,n)]).reshape((2,)+shp); g = (R.normal(size=(2,n))*10**R.uniform(-7,0)).reshape((2,)+shp); zero = R.random() < .3
        if zero: g[(slice(None),)+tuple(0 for _ in shp)] = 0
        p0, g0 = pos.copy(), g.copy(); pol = [None,False,True][R.integers(0,3)]; rot0 = R.uniform(-1,1,shp); three = R.random() < .3
        o = lensing.offset_by_grad(np.concatenate([pos,rot0[None]]) if three else pos, g, pol=pol); npol = 3 if pol or (pol is None and three) else 2
        b.check("shape", o.shape == (npol,)+shp, o.shape); b.eq("arguments kept", np.array([pos,g]), np.array([p0,g0])); w, oo, gam = walk(pos, g); ok = (np.cos(oo[0]) > 1e-2)&(np.cos(pos[0]) > 1e-2)
        b.check("finite away from the poles", np.isfinite(o)[:,ok]); alt = over(pos, oo); b.check("end of the great circle", (np.max(np.abs(vec(*o[:2])-w),0) < 1e-6)|(np.max(np.abs(vec(*o[:2])-vec(*alt)),0) < 1e-6)|~ok)
        if npol == 3: off = rot0 if three else 0; b.check("change of bearing (as a direction of polarization)", np.minimum(*[np.abs(np.exp(2j*(o[2]-off))-np.exp(2j*k_*gam)) for k_ in (1,2)])[ok] < 1e-5)
        if k != 2:
            q = lensing.offset_by_grad(pos, g, geodesic=False); n2 = pos[0]+g[0]; b.close("fast version", vec(*q[:2]), vec(n2, pos[1]+g[1]/np.cos(pos[0])), atol=1e-8); b.check("latitude", np.abs(q[0]) <= np.pi/2+1e-9) if np.all(np.abs(n2) < 1.5*np.pi) else 0
        wv = lensing.pole_wrap(np.array([n2 if k != 2 else pos[0]*1.4, pos[1]])); b.close("pole_wrap keeps the point", vec(*wv), vec(n2 if k != 2 else pos[0]*1.4, pos[1]), atol=1e-9)

@bounded(P, ["pixell.lensing.offset_by_grad"], "the inputs of the recorded findings")
def recorded(b):
    from pixell import lensing
    pos, g = np.array([[1.5],[0.3]]), np.array([[0.2],[0.0]]); b.case("over the pole"); o = lensing.offset_by_grad(pos, g); b.finding("F2", np.max(np.abs(vec(*o[:2])-walk(pos,g)[0])) < 1e-6, o[:,0])
    pos, g = np.array([[1.0],[0.3]]), np.array([[0.1],[0.2]]); b.case("rotation"); o = lensing.offset_by_grad(pos, g, pol=True); e = walk(pos,g)[2]; b.finding("F3", np.max(np.abs(np.exp(2j*o[2])-np.exp(2j*e))) < 1e-6, (o[2],e))

def lfield(b, lmax, nc, amp, l0=1):
    from pixell import curvedsky; ai = curvedsky.alm_info(lmax=lmax); R = b.nrng
    a = R.normal(size=(nc,ai.nelem))+1j*R.normal(size=(nc,ai.nelem)); l, m = lmof(ai).T; a[:,m == 0] = a[:,m == 0].real*2**.5; a *= amp*((l >= l0)/(1.+l)); return a, ai

@bounded(P, ["pixell.lensing.lens_map_curved","pixell.lensing.rand_map","pixell.lensing.rand_alm","pixell.lensing.phi_to_kappa"], "band-limited fields (lmax up to 12) on coarse full-sky and partial CAR maps, displacements up to a few tens of degrees, every choice of outputs")
def lensed_sky(b):
    from pixell import enmap, curvedsky, lensing, utils; R = b.nrng
    for it in range(b.N(14)):
        nc = int(R.choice([0,1,3])); lmax = int(R.integers(4,13)); shape, wcs = enmap.fullsky_geometry(res=R.choice([6,9,10])*utils.degree, variant=R.choice(["fejer1","cc"]))
        if R.random() < .4: shape, wcs = enmap.slice_geometry(shape, wcs, (slice(int(R.integers(1,4)),-int(R.integers(1,4))),slice(None)))
        cmb, ai = lfield(b, lmax, max(nc,1), 1, 2 if nc == 3 else 0); phi, pai = lfield(b, int(R.integers(2,lmax+1)), 1, 10**R.uniform(-3,-.7)); phi = phi[0]; outs = "".join(R.permutation(list("lupka"))[:R.integers(1,6)]); geod = R.random() < .75; dt = [np.float64,np.float32][int(R.random() < .2)]
        step = None if R.random() < .5 else R.uniform(1.0,12)*abs(wcs.wcs.cdelt[1])*utils.degree; b.case(it, nc, lmax, shape, outs, geod, dt.__name__, step); full = (nc,)+shape if nc else shape; pin, cin = phi.copy(), cmb.copy()
        dbl = lambda a: a.astype(np.complex64) if dt == np.float32 else a
        res = lensing.lens_map_curved(full, wcs, dbl(phi), dbl(cmb), phi_ainfo=pai if R.random() < .5 else None, dtype=dt, output=outs, geodesic=geod, delta_theta=step); b.check("one map per letter", isinstance(res, tuple) and len(res) == len(outs)); b.eq("arguments kept", phi, pin); b.eq("arguments kept", cmb, cin)
        grad = curvedsky.alm2map(phi, enmap.zeros((2,)+shape, wcs), deriv=True); pos = enmap.posmap(shape, wcs); tl = 2e-3 if dt == np.float32 else 1e-7
        for o, m in zip(outs, res):
            b.check("dtype", m.dtype == dt)
            if   o == "p": b.close("potential", m, curvedsky.alm2map(phi, enmap.zeros(shape, wcs)), atol=tl)
            elif o == "a": b.close("deflection", m, grad, atol=tl)
            elif o == "k":
                l = lmof(pai)[:,0]; b.close("convergence", m, curvedsky.alm2map(phi*l*(l+1)/2, enmap.zeros(shape, wcs)), atol=tl)
            elif o == "u": b.close("unlensed", m, curvedsky.alm2map(cmb, enmap.zeros((max(nc,1),)+shape, wcs), spin=[0,2]).reshape(full), atol=tl)
            else:
                if geod: w, q, gam = walk(pos, grad); alts = [(q,gam),(over(pos,q),2*gam),(q,2*gam),(over(pos,q),gam)]
                else: q = np.array([pos[0]+grad[0], pos[1]+grad[1]/np.cos(pos[0])]); v = vec(*q); q = np.array([np.arctan2(v[2],np.hypot(v[0],v[1])), np.arctan2(v[1],v[0])]); alts = [(q,0)]
                ok = (np.abs(np.cos(q[0])) > 2e-2)&(np.abs(np.cos(pos[0])) > 2e-2); err = []
                for q_, gm in alts:
                    want = np.asarray(curvedsky.alm2map_pos(cmb, q_, spin=[0,2])).reshape((max(nc,1),)+shape); want = rotqu(want, gm) if nc == 3 else want; err.append(np.max(np.abs(m.reshape(want.shape)-want)*ok))
                b.check("lensed sky is the sky at the displaced position, parallel transported (up to the recorded findings)", min(err) < tl*5*max(1,np.abs(want).max()), err)
    for it in range(b.N(4)):
        lmax = int(R.integers(6,14)); ps = np.zeros((4,4,lmax+1)); l = np.arange(lmax+1); [ps.__setitem__((i,i), (0.001 if i == 0 else 1)/(l+2.)**2) for i in range(4)]; ps[0,1] = ps[1,0] = 0.3*np.sqrt(ps[0,0]*ps[1,1]); b.case("random", lmax)
        s1, s2 = [int(x) for x in R.integers(1,10**6,2)]; ncomp = int(R.choice([1,3])); A = lensing.rand_alm(ps, lmax=lmax, seed=s1, phi_seed=s2, ncomp=ncomp); Bm = lensing.rand_alm(ps, lmax=lmax, seed=s1+1, phi_seed=s2, ncomp=ncomp); N = lensing.rand_alm(ps, lmax=lmax, seed=s1, phi_seed=s2)
        b.check("shapes", A[0].shape == (A[2].nelem,) and A[1].shape == (ncomp,A[2].nelem) and N[1].shape[0] == 3, (A[1].shape, N[1].shape)); l_, m_ = lmof(A[2]).T
        for X in (A, N, lensing.rand_alm(ps, lmax=lmax, seed=s1, ncomp=ncomp)): b.check("a real sky", np.all(X[0][m_ == 0].imag == 0) and np.all(X[1][:,m_ == 0].imag == 0), X[1][:,m_ == 0].imag)
        D = ps.copy(); D[0,1] = D[1,0] = 0; C, E = lensing.rand_alm(D, lmax=lmax, seed=s1, phi_seed=s2, ncomp=ncomp), lensing.rand_alm(D, lmax=lmax, seed=s1+1, phi_seed=s2, ncomp=ncomp); b.close("phi_seed decides phi", C[0], E[0]); b.check("seed decides the rest", not np.allclose(C[1], E[1])); E = lensing.rand_alm(D, lmax=lmax, seed=s1, phi_seed=s2+1, ncomp=ncomp); b.close("seed decides the rest", C[1], E[1]); b.check("phi_seed decides phi", not np.allclose(C[0], E[0]))
        E = lensing.rand_alm(D*4, lmax=lmax, seed=s1, phi_seed=s2, ncomp=ncomp); b.close("scales with the spectrum", np.concatenate([E[0][None],E[1]]), 2*np.concatenate([C[0][None],C[1]]))
        shape, wcs = enmap.fullsky_geometry(res=10*utils.degree); fs = ((ncomp,) if ncomp > 1 else ())+shape
        for ph in (None, s2):
            X = lensing.rand_alm(ps, lmax=lmax, seed=s1, phi_seed=ph, ncomp=ncomp); b.close("map of the same sky", np.array(lensing.rand_map(fs, wcs, ps, lmax=lmax, seed=s1, phi_seed=ph, output="lu")), np.array(lensing.lens_map_curved(fs, wcs, X[0], X[1], output="lu")), atol=1e-9)
    lmax = 300; ps = np.zeros((2,2,lmax+1)); ps[0,0] = 2.0; ps[1,1] = 3.0; ps[0,1] = ps[1,0] = 1.2; b.case("spectrum")
    for ph in (None, 77):
        X = lensing.rand_alm(ps, lmax=lmax, seed=int(R.integers(1,10**6)), phi_seed=ph, ncomp=1); cl = curvedsky.alm2cl(np.array([X[0],X[1][0]])[:,None], np.array([X[0],X[1][0]])[None]); wt = 2*np.arange(lmax+1)+1; mean = np.sum(cl*wt,-1)/np.sum(wt); b.close("drawn from the spectrum", mean, ps[...,0], atol=0.12)

@bounded(P, ["pixell.lensing.lens_map","pixell.lensing.delens_map","pixell.lensing.delens_grad","pixell.lensing.displace_map","pixell.lensing.lens_map_flat"], "periodic CAR and plain maps up to 40x48, whole-pixel and smooth displacements")
def flat_lensing(b):
    from pixell import enmap, lensing, utils; R = b.nrng
    for it in range(b.N(12)):
        ny, nx = int(R.integers(24,41)), int(R.integers(24,49)); res = R.uniform(.2,2)*utils.arcmin; shape, wcs = enmap.geometry(pos=(0,0), res=res, shape=(ny,nx), proj=R.choice(["car","plain"])); pre = [(),(2,),(2,1)][R.integers(0,3)]; b.case(it, ny, nx, pre)
        t = np.arange(ny)[:,None]/ny*2*np.pi, np.arange(nx)[None]/nx*2*np.pi
        def smooth(): return sum(R.normal()*np.cos(i*t[0]+j*t[1]+R.uniform(0,6)) for i in range(3) for j in range(-2,3))
        m = enmap.zeros(pre+shape, wcs); [m.__setitem__(I, smooth()) for I in np.ndindex(*pre)] if pre else m.__setitem__(slice(None), smooth()); m0 = m.copy(); g = enmap.zeros((2,)+shape, wcs)
        b.close("no displacement", lensing.lens_map(m, g), m, atol=1e-6); dy, dx = int(R.integers(-5,6)), int(R.integers(-5,6)); cd = wcs.wcs.cdelt[::-1]*(utils.degree if wcs.wcs.ctype[0] else utils.degree); g[0] = dy*cd[0]; g[1] = dx*cd[1]
        sh = np.roll(m, (-dy,-dx), (-2,-1)); b.close("whole pixels", lensing.lens_map(m, g), sh, atol=1e-5); b.eq("argument kept", m, m0)
        pix = enmap.pixmap(shape, wcs)+np.array([dy,dx])[:,None,None]; b.close("displace_map", lensing.displace_map(m, pix), sh, atol=1e-5); b.close("nearest", lensing.displace_map(m, pix+R.uniform(-.4,.4,(2,)+shape), order=0), sh, atol=1e-9)
        for k in range(2): g[k] = smooth()*res*.06
        L = lensing.lens_map(m, g); ex = enmap.zeros(pre+shape, wcs); b.check("still a map", L.shape == m.shape and L.dtype == m.dtype)
        x = enmap.rand_gauss(m.shape, wcs); b.eq("argument kept", m, m0); T = lensing.lens_map(x.copy(), g, trans=True, order=1, mode="spline"); b.close("transpose", np.sum(lensing.lens_map(m.copy(), g, order=1)*x), np.sum(m*T), rtol=1e-8)
        pixs = m.sky2pix(m.posmap()+g, safe=False); T3 = lensing.displace_map(x.copy(), pixs, trans=True); b.close("transpose of the spline version", np.sum(lensing.displace_map(m.copy(), pixs)*x), np.sum(m*T3), rtol=1e-7)
        f = lambda y, xx: None
        D = lensing.delens_map(L, g, nstep=6); b.close("delensing undoes lensing", D, m, atol=3e-3*np.abs(m).max()+1e-9); al = lensing.delens_grad(g, nstep=8); b.close("the displacement at the displaced place", lensing.lens_map(g, -al)/res, al/res, atol=1e-3)
        ph = enmap.zeros(shape, wcs)+0; ph[:] = smooth()*res**2*3; fl = lensing.lens_map_flat(m if not pre else m.reshape((-1,)+shape)[0], ph); gp = enmap.grad_pix(ph); w2 = lensing.displace_map(m if not pre else m.reshape((-1,)+shape)[0], enmap.pixmap(shape, wcs)+gp); b.close("lens_map_flat", fl, w2, atol=2e-2*np.abs(m).max())

@bounded(P, ["pixell.aberration.boost_map","pixell.aberration.deboost_map","pixell.aberration.aberrate_map","pixell.aberration.deaberrate_map","pixell.aberration.modulate_map","pixell.aberration.demodulate_map","pixell.aberration.Aberrator.__init__","pixell.aberration.Aberrator.__call__","pixell.aberration.Modulator.__init__","pixell.aberration.Modulator.__call__","pixell.aberration.calc_boost_field","pixell.aberration.interpol_map","pixell.aberration.apply_modulation","pixell.aberration.fully"], "full-sky CAR maps of band-limited fields, speeds up to 0.3c, all modulation modes")
def boosts(b):
    from pixell import enmap, curvedsky, aberration, utils; R = b.nrng
    for it in range(b.N(8)):
        nc = int(R.choice([0,1,3])); lmax = int(R.integers(3,9)); shape, wcs = enmap.fullsky_geometry(res=R.choice([4,5])*utils.degree, variant="fejer1"); beta = R.uniform(.001,.15)*R.choice([-1,1]); dr = np.array([R.uniform(-3,3), np.arcsin(R.uniform(-1,1))])
        a, ai = lfield(b, lmax, max(nc,1), 30, 2 if nc == 3 else 0); a = a if nc else a[0]; m = curvedsky.alm2map(a, enmap.zeros(((nc,) if nc else ())+shape, wcs), spin=[0,2] if nc else 0); m0 = m.copy(); b.case(it, nc, lmax, beta, dr)
        o = aberration.aberrate_map(m, dir=dr, beta=beta); b.eq("argument kept", m, m0); pos = m.posmap(); V = vec(*pos); D = vec(dr[1],dr[0])[:,None,None]; z = np.clip((V*D).sum(0),-1,1); zr = (z-beta)/(1-z*beta)
        th = np.arccos(zr)-np.arccos(z); s = np.maximum(np.sqrt(1-z**2),1e-12); tv = (z*V-D)/s; e0, e1 = frame(*pos); g = np.array([(tv*e0).sum(0)*th, (tv*e1).sum(0)*th]); w, q, gam = walk(pos, g); want = np.asarray(curvedsky.alm2map_pos(np.atleast_2d(a), q, spin=[0,2] if nc == 3 else 0)).reshape((max(nc,1),)+shape)
        if nc == 3: want = rotqu(want, gam)
        sc = np.abs(want).max(); b.close("aberrated sky", o.reshape(want.shape)/sc, want/sc, atol=2e-3); b.close("deaberration undoes it", aberration.deaberrate_map(o, dir=dr, beta=beta)/sc, m/sc, atol=5e-3)
        A = 1/(np.sqrt(1-beta**2)*(1-0*z))*(1-beta*z)**-1*(1-beta**2); mode = R.choice(["T2lin","plain","T2T"]); inv = {"T2lin":"lin2T"}.get(mode, mode); T0 = R.choice([utils.T_cmb,2.0]); f = R.choice([90e9,150e9]); dip = bool(R.random() < .4)
        mo, AA = aberration.modulate_map(m.copy(), dir=dr, beta=beta, modulation=mode, T0=T0, freq=f, dipole=dip, return_modulation=True); b.close("modulation", AA, A, atol=1e-4); ref = m.reshape((max(nc,1),)+shape); x = utils.h*f/utils.k
        if mode != "T2lin": wm = ref*A+np.where(np.arange(max(nc,1)) == 0, 1, 0)[:,None,None]*(A-1)*T0*1e6*dip
        else:
            Pk = lambda T: 1/np.expm1(x/T); dP = x/T0**2*np.exp(x/T0)/np.expm1(x/T0)**2; off = np.array([Pk(T0)+0*A if (dip and q_ == 0) else Pk(A*T0) for q_ in range(max(nc,1))]); wm = (Pk(A*(ref*1e-6+T0))-off)/dP*1e6
        b.close("modulated values", mo.reshape(wm.shape)*1e-3/np.abs(wm).max(), wm*1e-3/np.abs(wm).max(), atol=1e-6); back = aberration.demodulate_map(mo.copy(), dir=dr, beta=beta, modulation=inv, T0=T0, freq=f, dipole=dip)
        Ab = aberration.modulate_map(m.copy(), dir=dr, beta=-beta, modulation="T2T", return_modulation=True)[1]; b.close("modulation of the opposite boost", Ab, np.sqrt(1-beta**2)/(1+beta*z), atol=1e-4)
        bo, Am = aberration.boost_map(m.copy(), dir=dr, beta=beta, modulation=mode, T0=T0, freq=f, dipole=dip, return_modulation=True); st = aberration.modulate_map(o.copy(), dir=dr, beta=beta, modulation=mode, T0=T0, freq=f, dipole=dip); b.close("boost is aberration then modulation", bo/np.abs(st).max(), st/np.abs(st).max(), atol=1e-6); b.eq("same modulation", Am, AA)
        de = aberration.deboost_map(bo.copy(), dir=dr, beta=beta, modulation=inv, T0=T0, freq=f, dipole=dip); rs = max(sc, T0*1e6*abs(beta)*dip*.5); b.close("deboosting undoes boosting", de/rs, m/rs, atol=2e-2)
        b.close("steps can be left out", aberration.boost_map(m.copy(), dir=dr, beta=beta, modulate=False)/sc, o/sc, atol=1e-9); b.close("steps can be left out", aberration.boost_map(m.copy(), dir=dr, beta=beta, aberrate=False, modulation=mode, T0=T0, freq=f, dipole=dip), mo)
        ab = aberration.Aberrator(shape, wcs, dir=dr, beta=beta); b.close("object", ab(m)/sc, o/sc, atol=1e-9); b.eq("argument kept", m, m0); md = aberration.Modulator(shape, wcs, dir=dr, beta=beta, modulation=mode, T0=T0, freq=f, dipole=dip); b.close("object", md(m.copy()), mo); m4 = m.astype(np.float32); b.close("single precision", md(m4.copy())/np.abs(mo).max(), mo/np.abs(mo).max(), atol=1e-3); b.close("single precision", aberration.boost_map(m4.copy(), dir=dr, beta=beta, modulation=mode, T0=T0, freq=f, dipole=dip, coord_dtype=np.float64)/np.abs(bo).max(), bo/np.abs(bo).max(), atol=1e-3)
