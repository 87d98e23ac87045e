"""C12: angles, rotations and coordinate systems."""
import itertools
import numpy as np
from vp.core import *
from vp import geo, npshim, sym
P = "C12"
ADD = "sin and cos of a difference (addition theorems) and sin^2+cos^2=1"
AT2 = "arctan2(y,x) is the angle a with sqrt(x^2+y^2)*(cos a, sin a) = (x,y)"
def tol(c, a, b, t=1e-9): return Eq(a, b) if c.symbolic else bool(abs(a-b) <= t*(1+abs(b)))
def vec(c, *v): return c.arr(list(v)) if c.symbolic else np.array(v, float)
def sincos(c, x): return (sym.ufun("sin", x), sym.ufun("cos", x)) if issym(x) else (np.sin(x), np.cos(x))

@contract(P, ["pixell.utils.rewind"], scope="all angles, references and periods", samples=200)
def within_period(c):
    U = c.mod("utils"); a = c.real("a", sample=(-30,30)); ref = c.real("ref", sample=(-9,9)); per = c.real("period", sample=(.1,9)); c.assume(per > 0)
    k = c.int("k", sample=(-4,4)); f = c.real("f", sample=(0,1), lo=0, hi=1); c.assume(f < 1)
    a = ref - per/2 + (k+f)*per             # any angle: k whole periods and a fraction f above the cut
    if not c.symbolic and (f < 1e-6 or f > 1-1e-6): return
    r = U.rewind(vec(c, a), ref=ref, period=per)[0]
    c.check("whole periods away", tol(c, r, a-k*per)); c.check("within half a period of the reference", And(r >= ref-per/2, r <= ref+per/2))

@contract(P, ["pixell.utils.pole_wrap"], scope="all positions", samples=200)
def over_the_pole(c):
    U = c.mod("utils"); h = c.int("half_turns", sample=(-5,5)); f = c.real("f", lo=0, hi=1, sample=(.01,.99)); lon = c.real("lon", sample=(-9,9)); c.assume(f < 1)
    lat = (h+f)*c.pi-c.pi/2                  # any latitude
    p = vec(c, lat, lon).reshape(2,1); r = U.pole_wrap(p)
    c.check("argument kept", And(tol(c, p[0,0], lat), tol(c, p[1,0], lon)))
    c.check("latitude within the poles", And(r[0,0] >= -c.pi/2 - (0 if c.symbolic else 1e-12), r[0,0] <= c.pi/2 + (0 if c.symbolic else 1e-12)))
    if Eq(h%2, 0): c.check("front side: whole turns only", And(tol(c, r[0,0], lat-h*c.pi), tol(c, r[1,0], lon)))
    else: c.check("back side: mirrored, half a turn round", And(tol(c, r[0,0], h*c.pi-lat), tol(c, r[1,0], lon+c.pi)))

@contract(P, ["pixell.utils.unwrap_range"], scope="all ranges and periods", samples=200)
def ranges(c):
    U = c.mod("utils"); per = c.real("period", sample=(.5,9)); c.assume(per > 0); k1, k2 = c.int("k1", sample=(-4,4)), c.int("k2", sample=(-4,4)); f, g = c.real("f", lo=0, hi=1, sample=(.01,.99)), c.real("g", lo=0, hi=1, sample=(.01,.99)); c.assume(f < 1, g < 1)
    b = (k1+f)*per; a = b-(k2+g)*per         # any range: to = b, from = a
    src = vec(c, a, b); r = U.unwrap_range(src, per)
    c.check("argument kept", And(tol(c, src[0], a), tol(c, src[1], b)))
    c.check("shortest range in order", tol(c, r[1]-r[0], g*per))
    e = 0 if c.symbolic else 1e-9
    c.check("ends within one period above zero", And(r[1] >= -e, r[1] < per+e))
    c.check("both ends moved by the same whole periods, up to the length", And(tol(c, r[1], f*per), tol(c, r[0], (f-g)*per)))

@contract(P, ["pixell.utils.to_sexa","pixell.utils.from_sexa"], scope="all numbers", samples=300)
def sexagesimal(c):
    U = c.mod("utils"); d = c.int("deg", lo=0, sample=(0,300)); m = c.int("min", lo=0, hi=59, sample=(0,59)); s = c.real("sec", lo=0, hi=60, sample=(.01,59.9)); c.assume(s < 60); sg = c.choose("sign",[1,-1])
    x = sg*(d+(m*60+s)/3600)                 # any number
    if sg < 0: c.assume(x < 0)
    r = U.to_sexa(x); c.check("sign", Eq(r[0], sg)); c.check("degrees", Eq(r[1], d)); c.check("minutes", Eq(r[2], m)); c.check("seconds", tol(c, r[3], s, 1e-6))
    c.check("reconstruction", tol(c, U.from_sexa(*r), x))

for ax in (0,1,2,"x","y","z"):
    @contract(P, ["pixell.utils.rotmatrix"], name="rotation_%s" % ax, scope="all angles, axis %s" % ax, samples=60, trusted=[ADD])
    def rotation(c, ax=ax):
        U = c.mod("utils"); a = c.real("a", sample=(-9,9)); s, co = sincos(c, a); R = U.rotmatrix(a, ax); k = [0,0,0]; k["xyz".index(ax) if isinstance(ax,str) else ax] = 1
        c.check("shape", np.shape(R) == (3,3)); v = [c.real("v%d" % i, sample=(-3,3)) for i in range(3)]
        kv = sum(p*q for p,q in zip(k,v)); cr = [k[1]*v[2]-k[2]*v[1], k[2]*v[0]-k[0]*v[2], k[0]*v[1]-k[1]*v[0]]
        for i in range(3): c.check("right-handed rotation about the axis", tol(c, sum(R[i,j]*v[j] for j in range(3)), v[i]*co+cr[i]*s+k[i]*kv*(1-co)))

@contract(P, ["pixell.coordinates.euler_mat","pixell.utils.rotmatrix"], scope="all angles, zyz, xyz and zxz", samples=60, trusted=[ADD])
def euler(c):
    C, U = c.mod("coordinates"), c.mod("utils"); kind = c.choose("kind",["zyz","xyz","zxz"]); a = [c.real("a%d" % i, sample=(-9,9)) for i in range(3)]
    M = C.euler_mat(a, kind); R = [U.rotmatrix(x, k) for x, k in zip(a, kind)]
    for i in range(3):
        for j in range(3): c.check("first times second times third rotation", tol(c, M[i,j], sum(R[0][i,k]*R[1][k,l]*R[2][l,j] for k in range(3) for l in range(3))))

@contract(P, ["pixell.utils.ang2rect"], scope="all angles, both latitude conventions, any axis", samples=100, trusted=[ADD])
def to_vector(c):
    U = c.mod("utils"); zen = c.choose("zenith",[False,True]); ax = c.choose("axis",[0,1,-1]); ph = [c.real("phi%d" % i, sample=(-9,9)) for i in range(2)]; th = [c.real("th%d" % i, sample=(-2,2)) for i in range(2)]
    A = c.arr([ph, th]) if c.symbolic else np.array([ph, th], float); r = U.ang2rect(A if ax == 0 else A.T, zenith=zen, axis=ax); r = r if ax == 0 else r.T
    c.check("shape", r.shape == (3,2))
    for i in range(2):
        (sp, cp), (st, ct) = sincos(c, ph[i]), sincos(c, th[i])
        if zen: st, ct = ct, st
        c.check("x", tol(c, r[0,i], ct*cp)); c.check("y", tol(c, r[1,i], ct*sp)); c.check("z", tol(c, r[2,i], st))

@contract(P, ["pixell.utils.rect2ang"], scope="all vectors, both latitude conventions", samples=100, trusted=[AT2])
def to_angles(c):
    U = c.mod("utils"); zen = c.choose("zenith",[False,True]); v = [c.real("v%d" % i, sample=(-5,5)) for i in range(3)]; c.assume(v[0]*v[0]+v[1]*v[1] > 0)
    calls = []
    class N:
        def __init__(self, b): self._b = b
        def __getattr__(self, k): return getattr(self._b, k)
        def arctan2(self, y, x):
            y, x = [q[()] if getattr(q, "shape", None) == () else q[0] if hasattr(q, "shape") else q for q in (y,x)]
            a = c.real("angle%d" % len(calls)); calls.append((a,y,x)); return c.arr([a])
    src = c.arr([[x] for x in v]) if c.symbolic else np.array([[x] for x in v])
    if not c.symbolic:
        ang, R = U.rect2ang(src, zenith=zen, return_r=True); r = U.ang2rect(ang, zenith=zen)*R
        c.check("inverse of ang2rect", bool(np.allclose(r, src))); return
    with stub(c, U, np=N(U.np)): ang, R = U.rect2ang(src, zenith=zen, return_r=True)
    c.check("two angles", len(calls) == 2)
    (a1,y1,x1), (a2,y2,x2) = calls
    c.check("longitude first", And(Eq(ang[0,0], a1), Eq(ang[1,0], a2)))
    c.check("length", And(R[0] >= 0, Eq(R[0]*R[0], v[0]*v[0]+v[1]*v[1]+v[2]*v[2])))
    c.check("longitude of the vector", And(Eq(x1, v[0]), Eq(y1, v[1])))
    flat, up = (y2, x2) if zen else (x2, y2)
    c.check("latitude of the vector", And(Eq(up, v[2]), flat >= 0, Eq(flat*flat, v[0]*v[0]+v[1]*v[1])))

@contract(P, ["pixell.utils.angdist"], scope="all pairs of positions, both latitude conventions", samples=100, trusted=[ADD,AT2])
def distance(c):
    U = c.mod("utils"); zen = c.choose("zenith",[False,True]); a, b = [[c.real("%s%d" % (n,i), sample=(-3,3)) for i in range(2)] for n in "ab"]
    if not c.symbolic:
        A, B = np.array(a)[:,None], np.array(b)[:,None]; va, vb = U.ang2rect(A, zenith=zen), U.ang2rect(B, zenith=zen)
        r = U.angdist(A, B, zenith=zen)[0]; c.check("angle between the directions", bool(abs(r-np.arctan2(np.linalg.norm(np.cross(va[:,0],vb[:,0])), va[:,0].dot(vb[:,0]))) < 1e-9)); return
    calls = []
    class N:
        def __init__(self, b): self._b = b
        def __getattr__(self, k): return getattr(self._b, k)
        def arctan2(self, y, x): calls.append((y,x)); return y
    with stub(c, U, np=N(U.np)): U.angdist(c.arr([[x] for x in a]), c.arr([[x] for x in b]), zenith=zen)
    y, x = [q[0] if hasattr(q, "shape") and q.shape else q for q in calls[-1]]
    d = a[0]-b[0]; sd, cd = sincos(c, d); (sa, ca), (sb, cb) = sincos(c, a[0]), sincos(c, b[0]); (s1, c1), (s2, c2) = sincos(c, a[1]), sincos(c, b[1])
    if zen: s1, c1, s2, c2 = c1, s1, c2, s2
    c.assume(Eq(cd, ca*cb+sa*sb), Eq(sd, sa*cb-ca*sb), Eq(cd*cd+sd*sd, 1), Eq(s1*s1+c1*c1, 1), Eq(s2*s2+c2*c2, 1))
    c.check("cosine of the distance is the scalar product", Eq(x, s1*s2+c1*c2*(ca*cb+sa*sb)))
    c.check("sine is not negative", y >= 0)
    c.step("vector product", Eq(y*y, c2*c2*sd*sd+(c1*s2-s1*c2*cd)*(c1*s2-s1*c2*cd)))
    S2, C2, D2 = c.real("s2sq"), c.real("c2sq"), c.real("sdsq")
    c.check("sine and cosine of one angle", Eq(c2*c2*sd*sd+(c1*s2-s1*c2*cd)*(c1*s2-s1*c2*cd)+(s1*s2+c1*c2*cd)*(s1*s2+c1*c2*cd), (c2*c2)*(sd*sd)+(c1*c1+s1*s1)*(s2*s2+c2*c2*cd*cd)))

# ---- bounded
def unit(ra, dec): return np.array([np.cos(dec)*np.cos(ra), np.cos(dec)*np.sin(ra), np.sin(dec)])
def basis(ra, dec): return np.array([-np.sin(ra), np.cos(ra), 0*ra]), np.array([-np.sin(dec)*np.cos(ra), -np.sin(dec)*np.sin(ra), np.cos(dec)])
def sep(p, q): return np.arctan2(np.linalg.norm(np.cross(unit(*p), unit(*q), axis=0), axis=0), np.sum(unit(*p)*unit(*q),0))
def rpos(b, shape): return np.array([b.nrng.uniform(-7,7,shape), np.arcsin(b.nrng.uniform(-0.99,0.99,shape))])

@bounded(P, ["pixell.utils.rewind","pixell.utils.unwind","pixell.utils.flatview.__init__","pixell.utils.flatview.__enter__","pixell.utils.flatview.__exit__","pixell.utils.between_angles","pixell.utils.pole_wrap","pixell.utils.unwrap_range","pixell.utils.to_sexa","pixell.utils.from_sexa","pixell.utils.date2ctime","pixell.utils.ctime2date","pixell.utils.ctime2mjd","pixell.utils.mjd2ctime","pixell.utils.ang2chord","pixell.utils.chord2ang","pixell.utils.l2ang","pixell.utils.ang2l"], "random arrays up to three axes, angles up to 30 rad, dates 1960-2060, three time zones")
def angles(b):
    from pixell import utils
    import os, time, datetime
    rng = b.rng
    for it in range(b.N(400)):
        sh = tuple(rng.randint(1,6) for _ in range(rng.randint(1,3))); per = rng.choice([2*np.pi,360.0,1.0]); ref = rng.uniform(-1,1)*per; a = b.nrng.uniform(-4,4,sh)*per; a0 = a.copy(); b.case(sh, per, ref)
        turns = lambda x: np.abs(x/per-np.round(x/per)).max() < 1e-9
        r = utils.rewind(a, ref=ref, period=per); b.check("rewind moves by whole periods", turns(r-a)); b.check("rewind to within half a period", np.all(np.abs(r-ref) <= per/2*(1+1e-9))); b.eq("argument kept", a, a0)
        ra = utils.rewind(a, ref="auto", period=per); med = np.sort(a.ravel())[a.size//2]; b.check("rewind around the median", turns(ra-a) and np.all(np.abs(ra-med) <= per/2*(1+1e-9)))
        ax = rng.choice([[-1],[0],[len(sh)-1]]); rm = rng.choice(["left","middle"]); nan = rng.random() < 0.3; x = a.copy()
        if nan: x[b.nrng.random(sh) < 0.3] = np.nan
        u = utils.unwind(x, period=per, axes=ax, ref=ref, refmode=rm, mask_nan=nan); m = np.moveaxis(u, ax[0], -1); ok = np.isfinite(x); b.check("nans stay", np.array_equal(np.isfinite(u), ok))
        b.check("unwind moves by whole periods", turns((u-x)[ok]) if ok.any() else True)
        if not nan:
            b.check("no jumps left", m.shape[-1] < 2 or np.abs(np.diff(m,axis=-1)).max() <= per/2*(1+1e-9)); i0 = 0 if rm == "left" else m.shape[-1]//2
            b.check("reference element within half a period of ref", np.all(np.abs(m[...,i0]-ref) <= per/2*(1+1e-9)))
        lo = rng.uniform(-2,2)*per; wd = rng.uniform(0.05,0.95)*per; f = (a-lo)%per; sel = np.abs(f-wd) > 1e-9*per; got = utils.between_angles(a, [lo,lo+wd], period=per); b.check("between_angles", np.array_equal(got[sel], (f < wd)[sel]))
        p = np.array([a/per*6, b.nrng.uniform(-4,4,sh)]); p0 = p.copy(); w = utils.pole_wrap(p); b.close("same direction", unit(w[1],w[0]), unit(p[1],p[0]), atol=1e-9); b.check("latitudes", np.all(np.abs(w[0]) <= np.pi/2+1e-12)); b.eq("argument kept", p, p0)
        w1 = utils.pole_wrap(p[(slice(None),)+(0,)*len(sh)]); b.close("single position", w1, w[(slice(None),)+(0,)*len(sh)])
        R = np.array([a, a+b.nrng.uniform(-3,3,sh)*per]); R0 = R.copy(); q = utils.unwrap_range(R, per); d = (R[1]-R[0])%per; b.close("range length", q[1]-q[0], d, atol=1e-9*per); b.check("upper end", np.all((q[1] >= -1e-9*per) & (q[1] < per*(1+1e-9)))); b.check("range ends", turns(q-R)); b.eq("argument kept", R, R0)
        s = utils.to_sexa(a); b.close("sexagesimal", utils.from_sexa(*s), a, atol=1e-9); b.check("parts", np.all((s[1] >= 0)&(s[2] >= 0)&(s[2] < 60)&(s[3] > -1e-9)&(s[3] < 60+1e-6)) and np.array_equal(s[0] < 0, a < 0))
        s1 = utils.to_sexa(float(a.ravel()[0])); b.check("same for a single number", all(np.allclose(np.ravel(v)[0], t) for v,t in zip(s, s1)))
        t = b.nrng.uniform(0,np.pi,sh); b.close("chord", utils.ang2chord(t), np.linalg.norm(unit(t,0*t)-unit(0*t,0*t),axis=0)); b.close("chord back", utils.chord2ang(utils.ang2chord(t)), t, atol=1e-7); b.close("scale of a multipole", utils.ang2l(utils.l2ang(t*100)), t*100)
    old = os.environ.get("TZ")
    try:
        for it in range(b.N(60)):
            os.environ["TZ"] = rng.choice(["UTC","America/New_York","Asia/Tokyo","EST5EDT","XYZ-3"]); time.tzset()
            d = datetime.datetime(1960,1,1)+datetime.timedelta(seconds=rng.randint(0,100*365*86400)); b.case("date", str(d), os.environ["TZ"]); ct = (d-datetime.datetime(1970,1,1)).total_seconds()
            b.close("date2ctime", utils.date2ctime(str(d)), ct); b.check("ctime2date", utils.ctime2date(ct, fmt="%Y-%m-%d %H:%M:%S") == d.strftime("%Y-%m-%d %H:%M:%S")); mj = (d-datetime.datetime(1858,11,17)).total_seconds()/86400
            b.close("modified julian date", utils.ctime2mjd(ct), mj, rtol=1e-12); b.close("and back", utils.mjd2ctime(mj), ct, atol=1e-3); b.close("julian date", [utils.ctime2jd(ct), utils.mjd2jd(mj)], [mj+2400000.5]*2, rtol=1e-13)
            b.close("dublin julian date", [utils.ctime2djd(ct), utils.mjd2djd(mj)], [(d-datetime.datetime(1899,12,31,12)).total_seconds()/86400]*2, rtol=1e-10); b.close("back from it", [utils.djd2ctime(utils.ctime2djd(ct)), utils.jd2ctime(utils.ctime2jd(ct)), utils.jd2mjd(utils.mjd2jd(mj))], [ct, ct, mj], atol=1e-3)
    finally:
        if old is None: os.environ.pop("TZ", None)
        else: os.environ["TZ"] = old
        time.tzset()

@bounded(P, ["pixell.utils.ang2rect","pixell.utils.rect2ang","pixell.utils.angdist","pixell.utils.vec_angdist","pixell.utils.rotmatrix","pixell.coordinates.euler_mat","pixell.coordinates.euler_rot","pixell.coordinates.recenter","pixell.coordinates.decenter"], "random arrays of positions and angles up to three axes")
def rotations(b):
    from pixell import utils, coordinates as co
    rng = b.rng
    for it in range(b.N(300)):
        sh = tuple(rng.randint(1,4) for _ in range(rng.randint(1,3))); p, q = rpos(b, sh), rpos(b, sh); b.case(sh); zen = rng.random() < 0.5; ax = rng.randint(0,len(sh)); mv = lambda x: np.moveaxis(x, 0, ax)
        Z = lambda x: np.array([x[0], np.pi/2-x[1]]) if zen else x
        v = utils.ang2rect(mv(Z(p)), zenith=zen, axis=ax); b.close("unit vector", np.moveaxis(v, ax, 0), unit(*p), atol=1e-12)
        s = b.nrng.uniform(.1,5); an, r = utils.rect2ang(v*s, zenith=zen, axis=ax, return_r=True); an = np.moveaxis(an, ax, 0); b.close("length", r, s+0*r); b.close("latitude", Z(an)[1], p[1], atol=1e-7); b.close("longitude", np.abs((an[0]-p[0]+np.pi)%(2*np.pi)-np.pi), 0*p[0], atol=1e-9); b.eq("angles alone", np.moveaxis(utils.rect2ang(v, zenith=zen, axis=ax), ax, 0).shape, an.shape)
        b.close("angular distance", utils.angdist(mv(Z(p)), mv(Z(q)), zenith=zen, axis=ax), sep(p,q), atol=1e-9); eps = 10**rng.uniform(-9,-2); q2 = np.array([p[0], p[1]*(1-eps)]); b.close("small distances", utils.angdist(p, q2), np.abs(p[1])*eps, rtol=1e-5, atol=1e-14); b.close("symmetric", utils.angdist(p,q), utils.angdist(q,p))
        b.close("against one point", utils.angdist(p, q[(slice(None),)+(slice(0,1),)*len(sh)]), sep(p, np.broadcast_to(q[(slice(None),)+(slice(0,1),)*len(sh)], p.shape)), atol=1e-9)
        x, y = b.nrng.standard_normal((3,)+sh), b.nrng.standard_normal((3,)+sh); f = rng.choice([1,2,3,0.3,-1,-2.5,1e3]); b.close("angle between vectors", utils.vec_angdist(x,y), np.arctan2(np.linalg.norm(np.cross(x,y,axis=0),axis=0), np.sum(x*y,0)), atol=1e-7)
        b.close("parallel vectors", utils.vec_angdist(x, x*f), np.full(sh, 0 if f > 0 else np.pi), atol=1e-5); b.close("other axis", utils.vec_angdist(np.moveaxis(x,0,-1), np.moveaxis(y,0,-1), axis=-1), utils.vec_angdist(x,y))
        a = b.nrng.uniform(-7,7,sh); k = rng.choice([0,1,2]); ax2 = rng.randint(-1-len(sh),len(sh)); R = utils.rotmatrix(a, rng.choice([k,"xyz"[k],"XYZ"[k]]), axis=ax2); pos = ax2 if ax2 >= 0 else len(sh)+1+ax2; b.check("matrix axes", R.shape == sh[:pos]+(3,3)+sh[pos:], R.shape); R = np.moveaxis(R, (pos,pos+1), (-2,-1)); e = np.eye(3)[k]; u = b.nrng.standard_normal(3); kv = e.dot(u)
        b.close("rotation", R@u, u*np.cos(a)[...,None]+np.cross(e,u)*np.sin(a)[...,None]+e*kv*(1-np.cos(a))[...,None], atol=1e-12)
        eu = b.nrng.uniform(-7,7,3); kind = rng.choice(["zyz","xyz","zxz","yxz"]); M = co.euler_mat(eu, kind); W = utils.rotmatrix(eu[0],kind[0])@utils.rotmatrix(eu[1],kind[1])@utils.rotmatrix(eu[2],kind[2]); b.close("Euler matrix", M, W, atol=1e-12)
        r = co.euler_rot(eu, p, kind); b.close("Euler rotation", unit(*r), np.einsum("ij,j...->i...", W, unit(*p)), atol=1e-9)
        pf, n = p.reshape(2,-1), p[0].size; ea = b.nrng.uniform(-7,7,(3,n)); r = co.euler_rot(ea, pf); b.close("one rotation per point", unit(*r), np.array([co.euler_mat(ea[:,i])@unit(*pf[:,i]) for i in range(n)]).T, atol=1e-9)
        # recentring
        c4 = rng.random() < 0.5; per = rng.random() < 0.5; ce = rpos(b, (n,) if per else ()); to = rpos(b, (n,) if per else ()); cen = np.concatenate([ce,to]) if c4 else ce; rest = rng.random() < 0.4; cen0 = cen.copy(); p0 = pf.copy(); b.case("recentre", n, c4, per, rest)
        r = co.recenter(pf, cen, restore=rest); b.eq("centre kept", cen, cen0); b.eq("positions kept", pf, p0); b.close("decenter undoes it", unit(*co.decenter(r, cen, restore=rest)), unit(*pf), atol=1e-9)
        c1 = cen if cen.ndim == 2 else cen[:,None]+np.zeros(n); home = co.recenter(c1[:2], cen, restore=rest); tgt = np.array([c1[2]+(c1[0] if rest else 0), c1[3]]) if c4 else np.array([0*c1[0], 0*c1[0]+np.pi/2]); b.close("centre goes to its target", sep(home, tgt), np.zeros(n), atol=1e-7); b.close("distances from the centre kept", sep(r, tgt), sep(pf, c1[:2]), atol=1e-7)
        # orientation: what lies along the meridian of the centre stays on the meridian of the target
        nn = np.array([c1[0], c1[1]+1e-4]); g = co.recenter(nn, cen, restore=rest)
        if c4: b.close("north stays north", unit(*g), unit(tgt[0], tgt[1]+1e-4), atol=1e-8)
        else: b.close("above the centre is at longitude 180", unit(*g), unit(np.full(n, np.pi)+(c1[0] if rest else 0), np.full(n, np.pi/2-1e-4)), atol=1e-8)

@bounded(P, ["pixell.coordinates.transform","pixell.coordinates.transform_raw","pixell.coordinates.transform_meta","pixell.coordinates.transform_euler","pixell.coordinates.transform_astropy","pixell.coordinates.getsys","pixell.coordinates.getsys_full","pixell.coordinates.get_handedness","pixell.coordinates.tele2hor","pixell.coordinates.hor2tele","pixell.coordinates.tele2bore","pixell.coordinates.bore2tele","pixell.coordinates.nohor"], "random positions; equatorial, galactic, ecliptic, telescope and boresight systems and recentred versions; against astropy and tangent vectors")
def systems(b):
    from pixell import coordinates as co, utils
    import astropy.coordinates as ac, astropy.units as u
    rng = b.rng; frames = dict(equ=("icrs","ra","dec"), gal=("galactic","l","b"), ecl=("barycentrictrueecliptic","lon","lat")); names = dict(equ=["equ","cel","icrs","equatorial","CEL"], gal=["gal","galactic","Gal"], ecl=["ecl","ecliptic"])
    def matrix(f, t):
        """what astropy does to the unit vectors"""
        ra, dec = np.array([0,np.pi/2,0]), np.array([0,0,np.pi/2]); s = ac.SkyCoord(ra*u.rad, dec*u.rad, frame=frames[f][0]).transform_to(frames[t][0]); return unit(getattr(s,frames[t][1]).rad, getattr(s,frames[t][2]).rad)
    for it in range(b.N(150)):
        f, t = rng.choice(list(frames)), rng.choice(list(frames)); sh = rng.choice([(),(1,),(4,),(2,3)]); p = rpos(b, sh); p0 = p.copy(); M = matrix(f,t); b.case(f, t, sh)
        out = np.einsum("ij,j...->i...", M, unit(*p)); r = co.transform(rng.choice(names[f]), rng.choice(names[t]), p); b.check("shape", r.shape == p.shape, r.shape); b.close("direction", unit(*r), out, atol=2e-6 if "ecl" in (f,t) else 1e-9); b.eq("argument kept", p, p0)
        if f == t: b.close("same system", r, p, atol=1e-12)
        b.close("there and back", unit(*co.transform(t, f, r)), unit(*p), atol=1e-9); pi = np.round(p).astype(int); b.close("whole numbers", co.transform_raw(f, t, pi), co.transform_raw(f, t, pi.astype(float)))
        if sh:
            tm = b.nrng.uniform(50000,60000,sh); b.close("times broadcast", unit(*co.transform(f, t, p, time=tm)), unit(*r), atol=1e-9)
        # polarisation rotation and magnification
        ea, ed = basis(*p); oa, od = basis(*r[:2]); Rv = np.einsum("ij,j...->i...", M, ea); ang = np.arctan2(np.sum(Rv*od,0), np.sum(Rv*oa,0)); mag = np.cos(p[1])/np.cos(r[1]); far = np.abs(r[1]) < 1.5
        mode = rng.choice(["three","four","pol","mag","both"]); psi, mg = b.nrng.uniform(-3,3,sh), b.nrng.uniform(.5,2,sh); src = np.array([p[0],p[1],psi] if mode == "three" else [p[0],p[1],psi,mg] if mode == "four" else [p[0],p[1]]); kw = dict(pol=dict(pol=True,mag=False),mag=dict(mag=True,pol=False),both=dict(pol=True,mag=True)).get(mode,{})
        R = co.transform(f, t, src, **kw); cols = dict(three=["a"],four=["a","m"],pol=["a"],mag=["m"],both=["a","m"])[mode]; b.check("number of columns", len(R) == 2+len(cols), (mode, R.shape)); b.close("position", R[:2], r)
        for i, k in enumerate(cols):
            if k == "a": d = R[2+i]-(psi if mode in ("three","four") else 0)-ang; d = (d+np.pi)%(2*np.pi)-np.pi; b.check("polarisation angle turns with the local basis", np.all(np.abs(d[far]) < (2e-4 if "ecl" in (f,t) else 1e-4)), (d,))
            else: b.close("magnification", R[2+i], mag*(mg if mode == "four" else 1), rtol=1e-6)
        eu = b.nrng.uniform(-3,3,3); E = co.transform_euler(eu, p); b.close("Euler transform", E, co.euler_rot(eu, p)); Mx = co.euler_mat(eu); E3 = co.transform_euler(eu, p, pol=True, mag=True); oa, od = basis(*E); Rv = np.einsum("ij,j...->i...", Mx, ea); d = E3[2]-np.arctan2(np.sum(Rv*od,0), np.sum(Rv*oa,0)); d = (d+np.pi)%(2*np.pi)-np.pi; far = np.abs(E[1]) < 1.5; b.check("polarisation of Euler transform", np.all(np.abs(d[far]) < 1e-4)); b.close("magnification of Euler transform", E3[3], np.cos(p[1])/np.cos(E[1]), rtol=1e-6)
        # recentred systems
        cd = [round(rng.uniform(-170,170),2), round(rng.uniform(-80,80),2)]; td = [round(rng.uniform(-170,170),2), round(rng.uniform(-80,80),2)]; q = rpos(b, (5,)); two = rng.random() < 0.5; cs = rng.choice([None,"equ","gal"]); base = rng.choice(["equ","gal"])
        name = "%s:%g_%g%s%s" % (base, *cd, ":"+cs if cs else "", "/%g_%g:%s" % (*td, base) if two else ""); b.case("recentred", name); r = co.transform(base, name, q)
        cen = np.array(cd)*utils.degree; cen = co.transform(cs, base, cen) if cs else cen; tgt = np.array(td)*utils.degree if two else np.array([0,np.pi/2])
        b.close("reference point moves to its target", sep(co.transform(base, name, cen[:,None]), tgt[:,None]), [0], atol=1e-6); b.close("rigid", sep(r, tgt[:,None]+0*q), sep(q, cen[:,None]+0*q), atol=1e-6); b.close("and back", unit(*co.transform(name, base, r)), unit(*q), atol=1e-9)
        bore = rpos(b, (5,)); tel = co.transform("hor", "tele", q); b.close("telescope and back", unit(*co.transform("tele","hor",tel)), unit(*q), atol=1e-9); b.check("tilt of the base", np.all(sep(tel, q) <= co.default_site.base_tilt*utils.degree*(1+1e-6)))
        bo = co.transform("tele", "bore", q, bore=bore); b.close("distance from the boresight", np.pi/2-bo[1], sep(q, bore), atol=1e-7); b.close("boresight and back", unit(*co.transform("bore","tele",bo,bore=bore)), unit(*q), atol=1e-9)
