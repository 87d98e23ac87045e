"""contracts of the C kernels (see cvc)"""
import os
from vp import cvc
from vp.cvc import z3, I, R, fn, prove, guards
CY = os.path.join(os.environ.get("VP_REPO","/repo"), "cython")
CM, DI, SR = CY+"/cmisc_core.c", CY+"/distances_core.c", CY+"/srcsim_core.c"
TRUST = ["C kernels: integers do not overflow, floating-point numbers are real, pointer arguments do not overlap unless stated, OpenMP loops behave as their sequential order; "+cvc.AXIOMS, "clang's syntax tree of the C source"]
def ints(*n): return z3.Ints(" ".join(n))

# --- plain spherical projections
DEG = cvc.PI/180
def wcs_kernels(out, tier):
    out["trusted"] += TRUST
    g = z3.Int("g")
    def spec(kind):
        def f(p, b):
            P = p.params; q = lambda n: P[n]
            ra0, dec0, dra, ddec, x0, y0 = q("crval0")*DEG, q("crval1")*DEG, q("cdelt0")*DEG, q("cdelt1")*DEG, q("crpix0")-1, q("crpix1")-1
            o = {n: b.rd(n, g) for n in ("dec","ra","y","x")}
            if kind == "car_s2p": return dict(x=(o["ra"]-ra0)/dra+x0, y=(o["dec"]-dec0)/ddec+y0)
            if kind == "car_p2s": return dict(ra=(o["x"]-x0)*dra+ra0, dec=(o["y"]-y0)*ddec+dec0)
            if kind == "cea_s2p": return dict(x=(o["ra"]-ra0)/dra+x0, y=fn("sin",o["dec"])/ddec+y0)
            if kind == "cea_p2s": return dict(ra=(o["x"]-x0)*dra+ra0, dec=fn("asin",(o["y"]-y0)*ddec))
        return f
    for name, kind in (("wcs_car_sky2pix","car_s2p"),("wcs_car_pix2sky","car_p2s"),("wcs_cea_sky2pix","cea_s2p"),("wcs_cea_pix2sky","cea_p2s")):
        f = spec(kind)
        pre = lambda p: [p.params["n"] >= 0, p.params["cdelt0"] != 0, cvc.PI > 3, p.params["cdelt1"] != 0]
        inside = lambda p: z3.And(0 <= g, g < p.params["n"])
        def cands(p, s, f=f):
            w = f(p, p.before); i = s.loops[-1] if s.loops else None
            if i is None: return
            for n in ("dec","ra","y","x"):
                yield z3.Implies(i <= g, s.rd(n,g) == p.before.rd(n,g)), "unchanged"
                if n in w: yield z3.Implies(z3.And(i > g, g >= 0), s.rd(n,g) == w[n]), "set"
                yield z3.Implies(g < 0, s.rd(n,g) == p.before.rd(n,g)), "unchanged"
        def post(p, b, s, f=f):
            w = f(p, b); r = [("%s[i] for every i" % n, z3.Implies(inside(p), s.rd(n,g) == w[n])) for n in w]
            r += [("%s outside 0..n-1 untouched" % n, z3.Implies(z3.Not(inside(p)), s.rd(n,g) == b.rd(n,g))) for n in w]
            r += [("%s untouched" % n, s.rd(n,g) == b.rd(n,g)) for n in ("dec","ra","y","x") if n not in w]
            return r
        prove(out, CM, name, pre, post, cands)

# --- operations on alms. Layouts: m's row occupies mstart[m]+m..mstart[m]+lmax, rows do not overlap
def rows(ms, m, l, m0, l0):
    """two different (l,m) are stored at different places"""
    return z3.Implies(z3.Or(m != m0, l != l0), z3.Select(ms,m)+l != z3.Select(ms,m0)+l0)
def lmul(out, tier):
    out["trusted"] += TRUST
    m0, l0, c, k = ints("m0","l0","c","k")
    def mk(p):
        P = p.params; i0 = 2*(z3.Select(P["mstart"],m0)+l0)+c
        return P, i0
    pre = lambda p: [p.params["lmax"] >= 0, p.params["mmax"] >= 0, p.params["mmax"] <= p.params["lmax"], 0 <= m0, m0 <= p.params["mmax"], m0 <= l0, l0 <= p.params["lmax"], z3.Or(c == 0, c == 1)]
    def hints(p, s):
        if len(s.loops) == 2: yield rows(p.params["mstart"], s.loops[0], s.loops[1], m0, l0)
        # also for the iteration that was just made
        if len(s.loops) == 2: yield z3.Implies(z3.And(s.loops[1]-1 >= s.loops[0], s.loops[1]-1 <= p.params["lmax"]), rows(p.params["mstart"], s.loops[0], s.loops[1]-1, m0, l0))
    for suf in ("dp","sp"):
        want = lambda p, b: b.rd("alm", mk(p)[1])*z3.If(l0 <= p.params["lfmax"], b.rd("lfun",l0), z3.RealVal(0))
        def cands(p, s, want=want):
            i0 = mk(p)[1]
            yield s.rd("alm",i0) == p.before.rd("alm",i0), "frame"
            for G in guards(s.loops, [m0,l0]):
                yield z3.Implies(G, s.rd("alm",i0) == p.before.rd("alm",i0)), "not yet"
                yield z3.Implies(G, s.rd("alm",i0) == want(p,p.before)), "done"
        def post(p, b, s, want=want): return [("every a_lm is multiplied by f_l, and by 0 beyond the filter", s.rd("alm",mk(p)[1]) == want(p,b))]
        prove(out, CM, "lmul_"+suf, pre, post, cands, hints)
        # entries that belong to no (l,m) are left alone
        def cands2(p, s): yield s.rd("alm",k) == p.before.rd("alm",k), "frame"
        def hints2(p, s):
            if len(s.loops) == 2:
                for d in (0,1): yield z3.Implies(z3.And(0 <= s.loops[0], s.loops[0] <= p.params["mmax"], s.loops[0] <= s.loops[1]-d, s.loops[1]-d <= p.params["lmax"]), z3.And([k != 2*(z3.Select(p.params["mstart"],s.loops[0])+s.loops[1]-d)+e for e in (0,1)]))
        prove(out, CM, "lmul_"+suf, lambda p: [p.params["lmax"] >= 0, p.params["mmax"] >= 0], lambda p, b, s: [("entries outside the layout untouched", s.rd("alm",k) == b.rd("alm",k))], cands2, hints2, tag=" (frame)")

def transfer(out, tier):
    out["trusted"] += TRUST
    m0, l0, c = ints("m0","l0","c")
    pre = lambda p: [p.params[n] >= 0 for n in ("lmax1","mmax1","lmax2","mmax2")]+[0 <= m0, m0 <= l0, m0 <= p.params["mmax2"], l0 <= p.params["lmax2"], z3.Or(c == 0, c == 1)]
    i2 = lambda p: 2*(z3.Select(p.params["mstart2"],m0)+l0)+c
    i1 = lambda p: 2*(z3.Select(p.params["mstart1"],m0)+l0)+c
    def want(p, b): return z3.If(z3.And(m0 <= p.params["mmax1"], l0 <= p.params["lmax1"]), b.rd("alm1",i1(p)), b.rd("alm2",i2(p)))
    def hints(p, s):
        if len(s.loops) == 2:
            for d in (0,1): yield z3.Implies(z3.And(s.loops[1]-d >= s.loops[0], s.loops[1]-d <= p.params["lmax2"], s.loops[0] <= p.params["mmax2"]), rows(p.params["mstart2"], s.loops[0], s.loops[1]-d, m0, l0))
    for suf in ("dp","sp"):
        def cands(p, s):
            yield s.rd("alm2",i2(p)) == p.before.rd("alm2",i2(p)), "frame"
            for G in guards(s.loops, [m0,l0]):
                yield z3.Implies(G, s.rd("alm2",i2(p)) == p.before.rd("alm2",i2(p))), "not yet"
                yield z3.Implies(G, s.rd("alm2",i2(p)) == want(p,p.before)), "done"
        prove(out, CM, "transfer_alm_"+suf, pre, lambda p, b, s: [("common a_lm are copied, the others keep their value", s.rd("alm2",i2(p)) == want(p,b)), ("the source is unchanged", s.mem["alm1"] == b.mem["alm1"])], cands, hints)

# --- distances
def vincenty(dec1, ra1, dec2, ra2):
    c1, s1, c2, s2 = fn("cos",dec1), fn("sin",dec1), fn("cos",dec2), fn("sin",dec2)
    cd, sd = fn("cos",ra1-ra2), fn("sin",ra1-ra2)
    m = cvc.mul # products are uninterpreted in the proof; the lemma below is about the formula itself
    y1 = m(c2,sd); y2 = m(c1,s2)-m(m(s1,c2),cd); x = m(s1,s2)+m(m(c1,c2),cd)
    return fn("atan2", fn("sqrt", m(y1,y1)+m(y2,y2)), x)
def vlemma():
    c1, s1, c2, s2, cd, sd = z3.Reals("c1 s1 c2 s2 cd sd")
    hyp = [c1*c1+s1*s1 == 1, c2*c2+s2*s2 == 1, cd*cd+sd*sd == 1]
    y1 = c2*sd; y2 = c1*s2-s1*c2*cd; x = s1*s2+c1*c2*cd
    # 1-x^2-y^2 as a combination of the hypotheses
    h = [1-(a*a+b*b) for a, b in ((c1,s1),(c2,s2),(cd,sd))]
    comb = h[1] + (c2*c2)*h[2]*1 + h[0]*(s2*s2+c2*c2*cd*cd)
    return [("the formula is the angle: its sine and cosine have unit norm", hyp, x*x+y1*y1+y2*y2 == 1)]
def simple(out, tier):
    out["trusted"] += TRUST
    i0, j0 = ints("i0","j0")
    for null in ((), ("areas",)):
        def D(p): P = p.params; return vincenty(z3.Select(P["posmap"],i0), z3.Select(P["posmap"],i0+P["npix"]), z3.Select(P["points"],j0), z3.Select(P["points"],j0+P["npoint"]))
        pre = lambda p: [0 <= i0, i0 < p.params["npix"], 0 <= j0, j0 < p.params["npoint"]]
        def cands(p, s):
            d = D(p); di = s.rd("dists",i0); Q = [di <= d]
            if not null: Q += [z3.Implies(s.rd("areas",i0) == j0, di == d), z3.And(0 <= s.rd("areas",i0), s.rd("areas",i0) < p.params["npoint"])]
            if not null and s.loops: Q += [z3.And(0 <= s.rd("areas",i0), s.rd("areas",i0) < s.loops[-1])]
            for o in p.locals:
                if o not in s.mem: continue
                for f in ("sin","cos"):
                    for G in guards(s.loops[-1:], [j0]): yield z3.Implies(G, s.rd(o,j0) == fn(f, z3.Select(p.params["points"],j0))), "table"
            for G in guards(s.loops, [i0,j0,z3.IntVal(0)]):
                for q in Q: yield z3.Implies(G, q), "nearest"
        def post(p, b, s):
            d = D(p); r = [("no point is closer than the distance reported", s.rd("dists",i0) <= d)]
            if not null: r += [("the distance is that to the point reported", z3.Implies(s.rd("areas",i0) == j0, s.rd("dists",i0) == d)), ("a point is reported", z3.And(0 <= s.rd("areas",i0), s.rd("areas",i0) < p.params["npoint"]))]
            return r
        prove(out, DI, "distance_from_points_simple", pre, post, cands, null=null, tag=" without areas" if null else "", lemmas=vlemma(), abstract=True)
def separable(out, tier):
    out["trusted"] += TRUST
    y0, x0, j0 = ints("y0","x0","j0")
    i0 = lambda p: y0*p.params["nx"]+x0
    for null in ((), ("areas",)):
        def D(p): P = p.params; return vincenty(z3.Select(P["ypos"],y0), z3.Select(P["xpos"],x0), z3.Select(P["points"],j0), z3.Select(P["points"],j0+P["npoint"]))
        pre = lambda p: [0 <= y0, y0 < p.params["ny"], 0 <= x0, x0 < p.params["nx"], 0 <= j0, j0 < p.params["npoint"]]
        def hints(p, s):
            # different (y,x) have different places (lemma below), for this and the iteration just made
            if len(s.loops) >= 2:
                nx = p.params["nx"]
                for d in ((0,1) if len(s.loops) == 2 else (0,)):
                    y, x = s.loops[0], s.loops[1]-d
                    yield z3.Implies(z3.And(0 <= x, x < nx, z3.Or(y != y0, x != x0)), y*nx+x != i0(p))
        def lemma():
            y, x, n = ints("y","x","n")
            return [("different pixels have different places", [0 <= x, x < n, 0 <= x0, x0 < n, z3.Or(y != y0, x != x0), z3.Implies(y > y0, (y-y0)*n >= n), z3.Implies(y < y0, (y0-y)*n >= n)], y*n+x != y0*n+x0)]
        def cands(p, s):
            d = D(p); di = s.rd("dists",i0(p)); Q = [di <= d]
            if not null: Q += [z3.Implies(s.rd("areas",i0(p)) == j0, di == d), z3.And(0 <= s.rd("areas",i0(p)), s.rd("areas",i0(p)) < p.params["npoint"])]
            if not null and s.loops: Q += [z3.And(0 <= s.rd("areas",i0(p)), s.rd("areas",i0(p)) < s.loops[-1])]
            for o in p.locals:
                if o not in s.mem: continue
                for f in ("sin","cos"):
                    for G in guards(s.loops[-1:], [j0]): yield z3.Implies(G, s.rd(o,j0) == fn(f, z3.Select(p.params["points"],j0))), "table"
            L = s.loops; gh = [[y0],[x0],[j0,z3.IntVal(0)]]
            def gs():
                for k, v in enumerate(L):
                    same = [L[q] == gh[q][0] for q in range(min(k,2))]
                    for g in gh[min(k,2)]: yield z3.And(*same, v > g)
            for G in gs():
                for q in Q: yield z3.Implies(G, q), "nearest"
        def post(p, b, s):
            d = D(p); r = [("no point is closer than the distance reported", s.rd("dists",i0(p)) <= d)]
            if not null: r += [("the distance is that to the point reported", z3.Implies(s.rd("areas",i0(p)) == j0, s.rd("dists",i0(p)) == d)), ("a point is reported", z3.And(0 <= s.rd("areas",i0(p)), s.rd("areas",i0(p)) < p.params["npoint"]))]
            return r
        prove(out, DI, "distance_from_points_simple_separable", pre, post, cands, hints, null=null, tag=" without areas" if null else "", lemmas=vlemma()+lemma(), abstract=True)
def rewind(out, tier):
    out["trusted"] += TRUST
    g = z3.Int("g")
    def want(p, b): return fn("fmod", b.rd("vals",g)+p.params["ref"], p.params["period"])-p.params["ref"]
    def cands(p, s):
        if s.loops:
            yield z3.Implies(s.loops[-1] <= g, s.rd("vals",g) == p.before.rd("vals",g)), ""
            yield z3.Implies(z3.And(s.loops[-1] > g, g >= 0), s.rd("vals",g) == want(p,p.before)), ""
            yield z3.Implies(g < 0, s.rd("vals",g) == p.before.rd("vals",g)), ""
    prove(out, CM, "rewind_inplace", lambda p: [p.params["n"] >= 0], lambda p, b, s: [("every value becomes fmod(v+ref,period)-ref, which differs from it by whole periods", z3.Implies(z3.And(0 <= g, g < p.params["n"]), s.rd("vals",g) == want(p,b))),
        ("nothing else is touched", z3.Implies(z3.Not(z3.And(0 <= g, g < p.params["n"])), s.rd("vals",g) == b.rd("vals",g)))], cands)

# --- painting objects
def ivars(s):
    """the integer variables of a state"""
    out = []
    for v in s.env.values():
        if isinstance(v, z3.ExprRef) and v.sort() == I and not any(v is w for w in out): out.append(v)
    return out
def sorted_(rs, n):
    i, j = ints("si","sj"); return z3.ForAll([i,j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Select(rs,i) < z3.Select(rs,j)))
def search_post(n, rs, r, ret): S = z3.Select; return z3.If(r < S(rs,0), ret == -1, z3.If(r >= S(rs,n-1), ret >= n-1, z3.And(0 <= ret, ret < n-1, S(rs,ret) <= r, r < S(rs,ret+1))))
def spaced(rs, n): i = z3.Int("si"); return z3.And(z3.Select(rs,1) > 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(rs,i) == z3.ToReal(i)*z3.Select(rs,1))))
def objects(out, tier):
    out["trusted"] += TRUST
    a, b = ints("a","b"); q = lambda x, y: x/y
    div = lambda x, y: z3.Implies(y > 0, z3.And(y*q(x,y) <= x, x < y*q(x,y)+y, (-x)/y == z3.If(y*q(x,y) == x, -q(x,y), -q(x,y)-1)))
    P = lambda p, *n: [p.params[k] for k in n]
    prove(out, SR, "floor_div", lambda p: [P(p,"b")[0] > 0], lambda p, b, s: [("the whole number of b in a, rounded down", s.ret == q(*P(p,"a","b")))], hints=lambda p, s: [div(*P(p,"a","b"))])
    prove(out, SR, "mod", lambda p: [P(p,"b")[0] > 0], lambda p, b, s: [("what is left of a, from 0 to b-1", z3.And(s.ret == P(p,"a")[0]-P(p,"b")[0]*q(*P(p,"a","b")), 0 <= s.ret, s.ret < P(p,"b")[0]))], hints=lambda p, s: [div(*P(p,"a","b"))])
    # contracts the callers below are checked against
    cdiv = lambda p, v, st: v[0]/v[1]
    cmod = lambda p, v, st: v[0]-v[1]*(v[0]/v[1])
    IM = dict(floor_div=cdiv, mod=cmod)
    x0, c0 = ints("x0","c0")
    def cellpost(p, b, s):
        i, cs, n, nc = P(p,"i","csize","npix","ncell"); k = q(i,n); r = i-n*k
        return [("the cell of the wrapped pixel, plus the cells of each whole map", s.ret == k*nc+q(r,cs)), ("which lies in the map", z3.And(0 <= s.ret-k*nc, s.ret-k*nc < nc))]
    prove(out, SR, "pix2cell", lambda p: [P(p,"csize")[0] > 0, P(p,"npix")[0] > 0, P(p,"ncell")[0]*P(p,"csize")[0] >= P(p,"npix")[0]], cellpost, callee=IM,
        hints=lambda p, s: [div(P(p,"i")[0],P(p,"npix")[0]), div(P(p,"i")[0]-P(p,"npix")[0]*q(*P(p,"i","npix")), P(p,"csize")[0])])
    def wrapped(p, b, s):
        r = []
        for o, n in ((0,"ny"),(2,"nx")):
            n = p.params[n]; y1, y2, z1, z2 = b.rd("box",o), b.rd("box",o+1), s.rd("box",o), s.rd("box",o+1)
            r += [("starts inside the map, whole maps away", z3.And(0 <= z1, z1 < n, z1 == y1-n*q(y1,n))), ("keeps its length, up to one turn", z2-z1 == z3.If(y2-y1 > n, n, y2-y1))]
        return r
    prove(out, SR, "wrap_box", lambda p: [P(p,"ny")[0] > 0, P(p,"nx")[0] > 0], wrapped, callee=IM, hints=lambda p, s: [div(z3.Select(p.params["box"],o),p.params[n]) for o, n in ((0,"ny"),(2,"nx"))])
    g = z3.Int("g")
    def merged(p, b): t, v = b.rd("target",g), b.rd("source",g); op = p.params["op"]; return z3.If(op == 0, t+v, z3.If(op == 1, z3.If(v > t, v, t), z3.If(op == 2, z3.If(v < t, v, t), t)))
    ins = lambda p: z3.And(0 <= g, g < p.params["n"])
    def mc(p, s):
        if s.loops:
            i = s.loops[-1]; yield z3.Implies(i <= g, s.rd("target",g) == p.before.rd("target",g)), ""
            yield z3.Implies(z3.And(i > g, g >= 0), s.rd("target",g) == merged(p, p.before)), ""
            yield z3.Implies(g < 0, s.rd("target",g) == p.before.rd("target",g)), ""
    prove(out, SR, "merge_cell", lambda p: [p.params["n"] >= 0], lambda p, b, s: [("sum, maximum or minimum in every pixel", z3.Implies(ins(p), s.rd("target",g) == merged(p,b))), ("nothing else is touched", z3.Implies(z3.Not(ins(p)), s.rd("target",g) == b.rd("target",g))), ("the source is read only", s.mem["source"] == b.mem["source"])], mc)
    # profiles
    def bc(p, s):
        rs, r, n = P(p,"rs","r","n"); V = ivars(s)
        for v in V:
            yield z3.And(0 <= v, v <= n-1), ""
            yield z3.Select(rs,v) <= r, ""
            yield r < z3.Select(rs,v), ""
            for w in V:
                if w is not v: yield v < w, ""
    prove(out, SR, "binary_search", lambda p: [P(p,"n")[0] >= 1, sorted_(*P(p,"rs","n"))], lambda p, b, s: [("the interval that holds r", search_post(*P(p,"n","rs","r"), s.ret))], bc)
    prove(out, SR, "equi_search", lambda p: [P(p,"n")[0] >= 2, P(p,"r")[0] >= 0, spaced(*P(p,"rs","n"))], lambda p, b, s: [("the interval that holds r", search_post(*P(p,"n","rs","r"), s.ret))],
        hints=lambda p, s: (lambda rs, r, n: [r == (r/z3.Select(rs,1))*z3.Select(rs,1)]+[z3.Implies(z3.ToReal(k) <= r/z3.Select(rs,1), z3.ToReal(k)*z3.Select(rs,1) <= r) for k in (z3.ToInt(r/z3.Select(rs,1)), n, n-1)]+[z3.Implies(z3.ToReal(k) > r/z3.Select(rs,1), z3.ToReal(k)*z3.Select(rs,1) > r) for k in (z3.ToInt(r/z3.Select(rs,1))+1, n, n-1)])(*P(p,"rs","r","n")))
    def srch(kind):
        def f(p, v, st):
            n, rs, r = v; rs = st.mem[rs.obj]; ret = p.fresh(I, "found"); pre = z3.And(n >= 1, sorted_(rs,n)) if kind else z3.And(n >= 2, r >= 0, spaced(rs,n))
            st.pc.append(z3.Implies(pre, search_post(n, rs, r, ret))); return ret
        return f
    k = z3.Int("k")
    for eq in (0,1):
        def lin(p, b, s):
            n, rs, vs, r = P(p,"n","rs","vs","r"); S = z3.Select
            return [("linear between the samples", z3.Implies(z3.And(0 <= k, k < n-1, S(rs,k) <= r, r < S(rs,k+1)), s.ret == S(vs,k)+(S(vs,k+1)-S(vs,k))*((r-S(rs,k))/(S(rs,k+1)-S(rs,k))))),
                ("the first value before them", z3.Implies(r < S(rs,0), s.ret == S(vs,0))), ("zero beyond them", z3.Implies(r >= S(rs,n-1), s.ret == 0))]
        prove(out, SR, "evaluate_profile", lambda p: [P(p,"n")[0] >= 2, P(p,"r")[0] >= 0, sorted_(*P(p,"rs","n")), P(p,"equi")[0] == eq]+([spaced(*P(p,"rs","n"))] if eq else []), lin, callee=dict(binary_search=srch(1), equi_search=srch(0)), tag=" (equidistant)" if eq else " (general)")
    # one object into a cell: distances and profile values are the functions specified above
    y0, = ints("y0",); dist = lambda *v: cvc.uf("distance",4)(*v); val = lambda r: cvc.uf("profile",1)(r)
    idx = lambda p, y, x, c: c*(p.params["ny"]*p.params["nx"])+(y*p.params["nx"]+x)
    pre = lambda p: [0 <= y0, y0 < p.params["ny"], 0 <= x0, x0 < p.params["nx"], 0 <= c0, c0 < p.params["ncomp"], p.params["transpose"] == 0]
    def want(p):
        D = p.params; pix = y0*D["nx"]+x0; return cvc.mul(z3.Select(D["amps"],c0), val(dist(z3.Select(D["pix_decs"],pix), z3.Select(D["pix_ras"],pix), D["obj_dec"], D["obj_ra"])))
    def pc(p, s):
        L = s.loops; v = s.rd("map",idx(p,y0,x0,c0)); gh = [y0,x0,c0]; w = want(p)
        yield s.mem["amps"] == p.before.mem["amps"], ""
        for n in range(len(L)):
            for gs in __import__("itertools").permutations(gh, n+1):
                same = [L[j] == gs[j] for j in range(n)]; yield z3.Implies(z3.And(*same, L[n] > gs[n]), v == w), ""
    def hints(p, s):
        L = s.loops; ny, nx = p.params["ny"], p.params["nx"]
        if len(L) == 3:
            for d in (0,1):
                y, x, c = L[0], L[1], L[2]-d
                yield z3.Implies(z3.And(0 <= y, y < ny, 0 <= x, x < nx, z3.Or(y != y0, x != x0, c != c0)), idx(p,y,x,c) != idx(p,y0,x0,c0))
    def lem():
        y, x, c, nx, ny = ints("y","x","c","nx","ny"); pi, pj = ints("pi","pj"); big = lambda u, v, n: [z3.Implies(u > v, (u-v)*n >= n), z3.Implies(u < v, (v-u)*n >= n)]
        return [("different pixels have different places", [0 <= x, x < nx, 0 <= x0, x0 < nx, z3.Or(y != y0, x != x0)]+big(y,y0,nx), y*nx+x != y0*nx+x0),
            ("different components have different places", [0 <= pi, pi < ny, 0 <= pj, pj < ny, z3.Or(c != c0, pi != pj)]+big(c,c0,ny), c*ny+pi != c0*ny+pj)]
    prove(out, SR, "paint_object", pre, lambda p, b, s: [("every pixel holds the amplitude times the profile at its distance", s.rd("map",idx(p,y0,x0,c0)) == want(p)), ("the amplitudes are read only", s.mem["amps"] == b.mem["amps"])], pc, hints, abstract=True, lemmas=lem(),
        callee=dict(calc_dist=lambda p, v, st: dist(*v), evaluate_profile=lambda p, v, st: val(v[3])))
    prove(out, SR, "calc_dist", lambda p: [], lambda p, b, s: [("the angle between the two directions", s.ret == vincenty(*P(p,"dec2","ra2","dec1","ra1")))], abstract=True, lemmas=vlemma())
