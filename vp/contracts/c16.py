"""C16: interval, binning, grouping, matching and splitting utilities, and the iterative solvers."""
import itertools
import numpy as np
from vp.core import *
from vp import npshim, sym
P = "C16"
def tol(c, a, b, t=1e-9): return Eq(a, b) if c.symbolic else bool(abs(a-b) <= t*(1+abs(b)))
def mat(c, rows): return c.arr(rows) if c.symbolic else np.array(rows)
def Iff(p, q): return Or(And(p, q), And(Not(p), Not(q)))
def inside(x, r, k): return Or(*[And(x >= r[i][0], x < r[i][1]) for i in range(k)]) if k else False

# ---------------------------------------------------------------- contracts
for na, nb in ((1,1),(1,2),(2,1),(2,2)):
    @contract(P, ["pixell.utils.range_sub","pixell.utils.dedup"], name="difference_%d_%d" % (na,nb), scope="all sets of %d and %d disjoint ranges with different starts in any order, empty ones included" % (na,nb), samples=150, max_paths=4000)
    def difference(c, na=na, nb=nb):
        U = c.mod("utils")
        def ranges(n, tag):
            r = [[c.int("%s%d_from" % (tag,i), sample=(-6,6)), None] for i in range(n)]
            for i in range(n): r[i][1] = r[i][0]+c.int("%s%d_len" % (tag,i), lo=0, sample=(0,6))
            for i, j in itertools.combinations(range(n), 2): c.assume(And(Or(r[i][1] <= r[j][0], r[j][1] <= r[i][0]), Not(Eq(r[i][0],r[j][0]))))
            return r
        a, b = ranges(na,"a"), ranges(nb,"b"); x = c.int("x", sample=(-8,14))
        r, rmap, ab = U.range_sub(mat(c,a), mat(c,b), mapping=True); n = len(r)
        c.check("two columns", np.ndim(r) == 2 and np.shape(r)[1] == 2)
        ina, inb, inr = inside(x,a,na), inside(x,b,nb), inside(x,r,n)
        c.check("in the result exactly when in a and not in b", Iff(inr, And(ina, Not(inb))))
        for i in range(n):
            c.check("no empty ranges", r[i][1] > r[i][0])
            for k in range(na):
                if int(rmap[i]) == k: c.check("each part lies in the range it is mapped to", And(r[i][0] >= a[k][0], r[i][1] <= a[k][1]))
            if i: c.check("in order", r[i][0] >= r[i-1][1])
        r2 = U.range_sub(mat(c,a), mat(c,b)); c.check("same without mapping", len(r2) == n and And(*[And(Eq(r2[i][0],r[i][0]), Eq(r2[i][1],r[i][1])) for i in range(n)]) if n else len(r2) == 0)
for n in (1,2,3):
    @contract(P, ["pixell.utils.range_union"], name="merging_%d" % n, scope="all sets of %d ranges in any order" % n, samples=150, max_paths=4000)
    def merging(c, n=n):
        U = c.mod("utils"); a = [[c.int("from%d" % i, sample=(-6,6)), None] for i in range(n)]
        for i in range(n): a[i][1] = a[i][0]+c.int("len%d" % i, lo=0, sample=(0,6))
        x = c.int("x", sample=(-8,14)); r, m = U.range_union(mat(c,a), mapping=True); k = len(r)
        c.check("covers the same points", Iff(inside(x,r,k), inside(x,a,n)))
        for i in range(k-1): c.check("separate and in order", r[i][1] < r[i+1][0])
        for i in range(n): j = int(m[i]); c.check("each range lies in the one it is mapped to", And(0 <= j, j < k, r[j][0] <= a[i][0], a[i][1] <= r[j][1]))
@contract(P, ["pixell.utils.range_normalize"], scope="all sets of 3 ranges", samples=150)
def normalizing(c):
    U = c.mod("utils"); a = [[c.int("from%d" % i, sample=(-6,6)), c.int("to%d" % i, sample=(-6,6))] for i in range(3)]; x = c.int("x", sample=(-8,8))
    r = U.range_normalize(mat(c,a)); c.check("covers the same points", Iff(inside(x,r,len(r)), inside(x,a,3)))
    for i in range(len(r)): c.check("forward and not empty", r[i][1] > r[i][0])
@contract(P, ["pixell.utils.mask2range"], scope="all masks of up to 6 samples (complete)", samples=80)
def masks(c):
    U = c.mod("utils"); n = c.choose("n", [0,1,2,3,4,5,6]); m = [c.choose("m%d" % i, [False,True]) for i in range(n)]
    r = U.mask2range(np.array(m,bool)); c.check("exactly the samples set", [any(a <= i < b for a,b in r) for i in range(n)] == m); c.check("maximal runs in order", all(r[i][1] < r[i+1][0] for i in range(len(r)-1)) and all(a < b for a,b in r))
@contract(P, ["pixell.utils.hasoff"], scope="all numbers, offsets and tolerances below one half", samples=200)
def offsets(c):
    U = c.mod("utils"); k = c.int("k", sample=(-9,9)); off = c.real("off", sample=(-2,2)); e = c.real("e", lo=-0.5, hi=0.5, sample=(-.5,.5)); t = c.real("tol", lo=0, hi=0.5, sample=(.01,.49)); c.assume(And(e < 0.5, t < 0.5))
    if not c.symbolic and abs(abs(e)-t) < 1e-6: return
    c.check("within the tolerance of the offset", Iff(U.hasoff(k+off+e, off, tol=t), And(e < t, -e < t)))
@contract(P, ["pixell.utils.transpose_inds"], scope="all array sizes and elements", samples=200)
def transposition(c):
    U = c.mod("utils"); nr, nc = c.int("nrow", lo=1, sample=(1,9)), c.int("ncol", lo=1, sample=(1,9)); i, j = c.int("i", lo=0, sample=(0,8)), c.int("j", lo=0, sample=(0,8)); c.assume(And(i < nr, j < nc))
    c.check("row and column exchanged", Eq(U.transpose_inds(i*nc+j, nr, nc), j*nr+i))
@contract(P, ["pixell.utils.CG.__init__","pixell.utils.CG.step"], scope="all symmetric 2x2 systems and diagonal preconditioners, one step; from zero or any start (without preconditioner)", samples=100)
def cg(c):
    U = c.mod("utils"); A = [[c.real("a00", sample=(1,4)), c.real("a01", sample=(-.9,.9))],[None,c.real("a11", sample=(1,4))]]; A[1][0] = A[0][1]
    m = [c.real("m0", sample=(.5,2)), c.real("m1", sample=(.5,2))]; b = [c.real("b0", sample=(-3,3)), c.real("b1", sample=(-3,3))]; x0 = [c.real("x0", sample=(-3,3)), c.real("x1", sample=(-3,3))]
    start, pre = c.choose("variant", [("zero",False),("given",False),("zero",True)])
    f = lambda v: mat(c, [A[0][0]*v[0]+A[0][1]*v[1], A[1][0]*v[0]+A[1][1]*v[1]])
    dot = lambda u, v: u[0]*v[0]+u[1]*v[1]
    M = (lambda v: mat(c, [m[0]*v[0], m[1]*v[1]])) if pre else (lambda v: v.copy())
    bv, xv = mat(c,b), mat(c,x0)
    if not c.symbolic: bv, xv = bv.astype(float), xv.astype(float)
    s = U.CG(f, bv, x0=xv if start == "given" else None, M=M, dot=dot)
    def residual(): return And(*[tol(c, s.r[i], b[i]-f(s.x)[i], 1e-6) for i in range(2)])
    c.check("starts with the residual", residual()); 
    if start == "given": c.check("starts from the guess", And(*[tol(c, s.x[i], x0[i]) for i in range(2)]))
    p0, r0 = mat(c, list(s.p)), mat(c, list(s.r)); pAp = dot(p0, f(p0))
    if not c.symbolic and abs(pAp) < 1e-3: return
    c.assume(Not(Eq(pAp, 0))); c.assume(Not(Eq(s.rz, 0))); rz0 = s.rz
    s.step()
    c.check("the residual stays that of the solution", residual()); c.check("one step counted", s.i == 1)
    c.check("new residual is orthogonal to the search direction", tol(c, dot(s.r,p0), 0, 1e-6))
    c.check("new direction is conjugate to the old one", tol(c, dot(s.p, f(p0)), 0, 1e-6))
    c.check("error relative to the start", tol(c, s.err*rz0, dot(s.r, M(s.r)), 1e-6))
    c.check("arguments kept", And(*[And(tol(c, bv[i], b[i]), tol(c, xv[i], x0[i])) for i in range(2)]))

# ---------------------------------------------------------------- bounded
def arr(b, n, lo=-9, hi=9): return b.nrng.integers(lo, hi, n)
@bounded(P, ["pixell.utils.find","pixell.utils.find_any","pixell.utils.contains","pixell.utils.nearest_ind","pixell.utils.common_vals","pixell.utils.common_inds","pixell.utils.union","pixell.utils.inverse_order","pixell.utils.complement_inds","pixell.utils.unmask","pixell.utils.search","pixell.utils.argmax","pixell.utils.dedup","pixell.utils.listsplit"], "random integer, real and string arrays of up to 12 entries")
def looking_up(b):
    from pixell import utils as U
    rng = b.rng
    for it in range(b.N(150)):
        n = rng.randint(1,12); kind = rng.choice(["int","real","str"]); pool = {"int":list(range(-9,30)), "real":[i*0.37-3 for i in range(40)], "str":["k%d" % i for i in range(40)]}[kind]
        a = np.array(rng.sample(pool, n)); vals = [rng.choice(list(a)) for i in range(rng.randint(0,6))]; b.case("find", a, vals)
        src = a.copy(); r = U.find(a, vals); b.check("find", len(r) == len(vals) and all(a[i] == v for i,v in zip(r,vals)), r)
        oth = [rng.choice(pool) for i in range(rng.randint(0,6))]; miss = [v for v in oth if v not in a]
        if miss: b.raises("find of a missing value", lambda: U.find(a, oth), ValueError)
        r = U.find(a, oth, default=-7); b.check("find with default", len(r) == len(oth) and all((r[i] == -7) if v not in a else a[r[i]] == v for i,v in enumerate(oth)), r)
        b.check("find_any", [a[i] for i in U.find_any(a, oth)] == [v for v in oth if v in a])
        b.eq("contains", np.asarray(U.contains(a, np.array(oth, a.dtype))), np.array([v in oth for v in a]))
        b.check("argument kept", np.array_equal(a, src))
        ls = [np.array(rng.sample(pool, rng.randint(1,12))) for i in range(rng.randint(1,3))]; com = sorted(set(ls[0]).intersection(*[set(l) for l in ls[1:]]))
        b.check("common_vals", sorted(U.common_vals(ls)) == com); ci = U.common_inds(ls)
        b.check("common_inds", len(ci) == len(ls) and all(len(i) == len(com) for i in ci) and all(len({ls[q][ci[q][k]] for q in range(len(ls))}) == 1 for k in range(len(com))))
        b.check("union", sorted(U.union(ls)) == sorted(set().union(*[set(l) for l in ls])) if len(ls) > 1 else True)
        o = b.nrng.permutation(n); b.eq("inverse_order", a[o][U.inverse_order(o)], a)
        sel = sorted(rng.sample(range(n), rng.randint(0,n))); b.eq("complement_inds", np.asarray(U.complement_inds(np.array(sel,int), n)), np.array([i for i in range(n) if i not in sel], int))
        if kind != "str":
            q = b.nrng.uniform(-12, 32, 5); b.case("nearest", a, q); r = U.nearest_ind(a, q); b.check("nearest_ind", np.allclose(np.abs(a[r]-q), np.abs(a[:,None]-q).min(0)), r)
            s = np.sort(a); r = U.nearest_ind(s, q, sorted=True); b.check("nearest_ind sorted", np.allclose(np.abs(s[r]-q), np.abs(s[:,None]-q).min(0)), r)
            m2 = b.nrng.integers(-4,5,(2,3,5)); m2.sort(-1); v = b.nrng.integers(-4,5,(2,3) if rng.random() < 0.5 else (3,))
            for side in ("left","right"): b.eq("search "+side, U.search(m2, v, side=side), np.array([[np.searchsorted(m2[i,j], np.broadcast_to(v,(2,3))[i,j], side=side) for j in range(3)] for i in range(2)]))
        x = b.nrng.integers(0,3,rng.randint(0,9)); b.check("dedup", list(U.dedup(x)) == [k for k,_ in itertools.groupby(x.tolist())])
        b.check("listsplit", U.listsplit(list(x),1) == [[int(y) for y in t.split(" ") if y] for t in " ".join(map(str,x)).replace("1","|").split("|")])
        sh = tuple(rng.randint(1,4) for i in range(rng.randint(1,3))); z = b.nrng.permutation(int(np.prod(sh))).reshape(sh); b.check("argmax", z[U.argmax(z)] == z.max())
        ax = rng.randint(0,len(sh)-1); mk = b.nrng.random(sh[ax]) < 0.6; fill = rng.choice([0,-3]); b.case("unmask", sh, ax, mk)
        if ax == len(sh)-1: b.eq("unmask", U.unmask(np.compress(mk, z, ax), mk, axis=ax, fill=fill), np.where(mk, z, fill))

@bounded(P, ["pixell.utils.find_equal_groups","pixell.utils.find_equal_groups_fast","pixell.utils.label_multi","pixell.utils.label_unique","pixell.utils.sum_by_id","pixell.utils.equal_split","pixell.utils.greedy_split","pixell.utils.greedy_split_simple","pixell.utils.cumsplit","pixell.utils.uncat","pixell.utils.split_outside","pixell.utils.split_by_group","pixell.utils.split_esc","pixell.utils.crossmatch","pixell.utils.without_inds","pixell.utils.only_inds"], "random arrays of up to 14 entries; catalogues of up to 12 positions on the sky")
def grouping(b):
    from pixell import utils as U
    rng = b.rng
    part = lambda g, n: sorted(int(i) for q in g for i in q) == list(range(n))
    for it in range(b.N(150)):
        n = rng.randint(1,14); a = arr(b,n,0,4); b.case("groups", a)
        want = {frozenset(np.where(a == v)[0].tolist()) for v in a}
        b.check("find_equal_groups", {frozenset(map(int,g)) for g in U.find_equal_groups(a)} == want and part(U.find_equal_groups(a), n))
        u, o, e = U.find_equal_groups_fast(a); b.check("find_equal_groups_fast", sorted(u) == sorted(set(a)) and len(e) == len(u)+1 and all(np.array_equal(np.sort(o[e[i]:e[i+1]]), np.where(a == u[i])[0]) for i in range(len(u))))
        a2 = b.nrng.integers(0,3,(n,2)); b.check("find_equal_groups of rows", {frozenset(map(int,g)) for g in U.find_equal_groups(a2)} == {frozenset(i for i in range(n) if tuple(a2[i]) == t) for t in set(map(tuple,a2.tolist()))})
        ls = [rng.choice([lambda: b.nrng.integers(0,rng.randint(1,6),n), lambda: np.array([rng.choice("abcde") for i in range(n)]), lambda: b.nrng.integers(0,4,n)*0.5])() for i in range(rng.randint(1,4))]; b.case("label_multi", ls)
        l = U.label_multi(ls); keys = [tuple(v[i] for v in ls) for i in range(n)]; b.check("label_multi: same label exactly for the same values", all((l[i] == l[j]) == (keys[i] == keys[j]) for i in range(n) for j in range(n)), l)
        b.check("label_multi: labels without gaps", sorted(set(l)) == list(range(len(set(keys)))))
        w = b.nrng.integers(0,3,(n,2))*1.0; l = U.label_unique(w, axes=(1,)); b.check("label_unique", l.shape == (n,) and all((l[i] == l[j]) == (tuple(w[i]) == tuple(w[j])) for i in range(n) for j in range(n)) and set(l) == set(range(l.max()+1)))
        b.check("label_unique with axes from the end", np.array_equal(U.label_unique(w, axes=(-1,)), l))
        l = U.label_unique(w); b.check("label_unique of numbers", l.shape == w.shape and all((l.flat[i] == l.flat[j]) == (w.flat[i] == w.flat[j]) for i in range(2*n) for j in range(2*n)))
        ax = rng.randint(0,1); z = b.nrng.integers(-5,6,(n,3) if ax == 0 else (3,n)); ids = arr(b,n,0,4); b.case("sum_by_id", z, ids, ax); r = U.sum_by_id(z, ids, axis=ax); b.check("sum_by_id", all(np.array_equal(np.take(r,k,ax), np.compress(ids == k, z, ax).sum(ax)) for k in range(ids.max()+1)))
        ws = b.nrng.uniform(0.1,3,n); nb = rng.randint(1,4); b.case("split", ws, nb); g = U.equal_split(ws, nb); tot = [sum(ws[i] for i in q) for q in g]; b.check("equal_split", len(g) == nb and part(g,n) and max(tot)-min(tot) <= ws.max()+1e-9)
        g = U.greedy_split_simple(ws, nb); tot = [sum(ws[i] for i in q) for q in g]; b.check("greedy_split_simple", len(g) == nb and part(g,n) and max(tot)-min(tot) <= ws.max()+1e-9)
        g, cost, work = U.greedy_split(list(ws), nb); tot = [sum(ws[i] for i in q) for q in g]; b.check("greedy_split", len(g) == nb and part(g,n) and np.allclose(tot,work) and np.isclose(cost,max(tot)) and max(tot)-min(tot) <= ws.max()+1e-9)
        sz, cap = b.nrng.integers(0,4,n), b.nrng.integers(1,6,rng.randint(1,4)); g = U.cumsplit(sz, cap); cs = np.cumsum(sz); b.check("cumsplit: the first size that does not fit", len(g) == len(cap) and all(g[i] == next((k for k in range(n) if cs[k] > cap[:i+1].sum()), n) for i in range(len(cap))), (sz,cap,g))
        parts = [arr(b,rng.randint(0,4)) for i in range(rng.randint(1,4))]; u = U.uncat(np.concatenate(parts), [len(p) for p in parts]); b.check("uncat", len(u) == len(parts) and all(np.array_equal(p,q) for p,q in zip(u,parts)))
        toks = ["".join(rng.choice(["a","b","(a,b)","[c,(d,e)]"]) for k in range(rng.randint(0,3))) for i in range(rng.randint(1,4))]; s = ",".join(toks); b.case("split", s); b.check("split_outside", U.split_outside(s, ",") == toks, U.split_outside(s,","))
        toks = ["".join(rng.choice(["a","b",",","\\"]) for k in range(rng.randint(1,4))) for i in range(rng.randint(1,4))]; s = ",".join(t.replace("\\","\\\\").replace(",","\\,") for t in toks); b.case("split_esc", s); b.check("split_esc", list(U.split_esc(s, ",")) == toks, list(U.split_esc(s,",")))
        t = tuple(range(rng.randint(1,6))); sel = [rng.randint(-len(t),len(t)-1) for i in range(rng.randint(0,3))]; b.check("without_inds", U.without_inds(t, sel) == tuple(v for v in t if v not in [t[i] for i in sel])); b.check("only_inds", U.only_inds(t, sel) == tuple(t[i] for i in sel))
    for it in range(b.N(60)):
        n1, n2 = rng.randint(0,12), rng.randint(0,12); nd = rng.choice([2,2,3]); sc = rng.choice([0.3,1.5]); p1, p2 = b.nrng.uniform(-sc,sc,(n1,nd)), b.nrng.uniform(-sc,sc,(n2,nd)); co = rng.choice(["auto","radec","cartesian","phitheta"]) if nd == 2 else rng.choice(["auto","cartesian"])
        if co == "phitheta": p1[:,1] += 1.57; p2[:,1] += 1.57
        if rng.random() < 0.3: p1[:,0] += 2*np.pi if co != "cartesian" and nd == 2 else 0
        def v(p): # unit vectors or coordinates
            if nd == 3 or co == "cartesian": return p
            t = p[:,1] if co != "phitheta" else np.pi/2-p[:,1]; return np.array([np.cos(t)*np.cos(p[:,0]), np.cos(t)*np.sin(p[:,0]), np.sin(t)]).T
        d = np.sum((v(p1)[:,None]-v(p2)[None])**2,-1)**0.5
        if not (nd == 3 or co == "cartesian"): d = 2*np.arcsin(np.minimum(d/2,1))
        r = rng.uniform(0.1,0.8); 
        if d.size and np.min(np.abs(d-r)) < 1e-6: continue
        if n1 == 0 or n2 == 0: continue
        b.case("crossmatch", p1, p2, r, co); al = U.crossmatch(p1, p2, r, mode="all", coords=co); b.check("all pairs within the radius", sorted(al) == [(i,j) for i in range(n1) for j in range(n2) if d[i,j] <= r], al)
        def greedy(ps):
            s1, s2, o = set(), set(), []
            for i,j in ps:
                if i in s1 or j in s2: continue
                s1.add(i); s2.add(j); o.append((i,j))
            return o
        ps = [(i,j) for i in range(n1) for j in range(n2) if d[i,j] <= r]
        b.check("closest pairs", sorted(U.crossmatch(p1,p2,r,coords=co)) == sorted(greedy(sorted(ps,key=lambda q: d[q]))))
        b.check("first pairs", sorted(U.crossmatch(p1,p2,r,mode="first",coords=co)) == sorted(greedy(ps)))

@bounded(P, ["pixell.utils.bin_multi","pixell.utils.bincount","pixell.utils.linbin","pixell.utils.expbin","pixell.utils.bin_data","pixell.utils.bin_expand","pixell.utils.edges2bins","pixell.utils.bins2edges","pixell.utils.block_reduce","pixell.utils.block_expand","pixell.utils.cumsum","pixell.utils.weighted_quantile","pixell.utils.weighted_median","pixell.utils.resize_array","pixell.utils.range_cut","pixell.utils.range_sub","pixell.utils.range_union","pixell.utils.mask2range","pixell.utils.maskmed","pixell.utils.deslope","pixell.utils.find_sweeps","pixell.utils.interp","pixell.utils.grid"], "random arrays of up to three axes of length up to 12, up to 6 ranges, all bin counts for up to 60 points")
def binning(b):
    from pixell import utils as U
    rng = b.rng
    for n in range(1, 60):
        for nb in (None,1,2,3,5,8):
            b.case("bins", n, nb)
            if nb is None or nb <= n:
                r = U.linbin(n, nbin=nb); b.check("linbin: consecutive, from 0 to n, nearly equal", r[0,0] == 0 and r[-1,1] == n and np.all(r[1:,0] == r[:-1,1]) and np.ptp(r[:,1]-r[:,0]) <= 1 and (nb is None or len(r) == nb), r)
                bs = nb or 4; r = U.linbin(n, bsize=bs); b.check("linbin: bins of the given size", r[0,0] == 0 and r[-1,1] >= n and r[-1,0] < n and np.all(r[:,1]-r[:,0] == bs) and np.all(r[1:,0] == r[:-1,1]))
            for nmin in (1,2,8):
                for nmax in (0,4,10):
                    if nmax and nmax < 2*nmin: continue
                    b.case("expbin", n, nb, nmin, nmax); r = U.expbin(n, nbin=nb, nmin=nmin, nmax=nmax); w = r[:,1]-r[:,0]
                    b.check("expbin: consecutive, from 0 to n", r[0,0] == 0 and r[-1,1] == n and np.all(r[1:,0] == r[:-1,1]) and np.all(w > 0), r)
                    b.check("expbin: at least nmin points", np.all(w >= nmin) or n < nmin or nmax, r); b.check("expbin: at most nmax points", not nmax or np.all(w <= nmax), r)
    for it in range(b.N(150)):
        sh = tuple(rng.randint(1,4) for i in range(rng.randint(0,2))); n = rng.randint(1,12); d = b.nrng.integers(-9,10,sh+(n,))*1.0
        cut = sorted(rng.sample(range(1,n), rng.randint(0,min(3,n-1)))); ed = np.array([0]+cut+[n]); bins = U.edges2bins(ed); b.case("bin_data", d.shape, bins)
        b.check("edges2bins", bins.tolist() == [[ed[i],ed[i+1]] for i in range(len(ed)-1)]); b.eq("bins2edges", np.asarray(U.bins2edges(bins)), ed)
        r = U.bin_data(bins, d); b.close("bin_data", r, np.stack([d[...,x:y].mean(-1) for x,y in bins],-1), 1e-12, 1e-12); b.close("bin_data with another operation", U.bin_data(bins, d, op=np.max), np.stack([d[...,x:y].max(-1) for x,y in bins],-1), 1e-12)
        x = U.bin_expand(bins, r); b.check("bin_expand", x.shape == d.shape and all(np.all(x[...,p:q] == r[...,i,None]) for i,(p,q) in enumerate(bins)))
        # blocks
        z = b.nrng.integers(-9,10,tuple(rng.randint(1,9) for i in range(rng.randint(1,3))))*1.0; ax = rng.randint(-z.ndim,z.ndim-1); L = z.shape[ax]; bs = rng.randint(1,4); off = rng.randint(0,min(bs-1,L)) ; inc = rng.random() < 0.7; op = rng.choice([np.mean,np.sum,np.max])
        if bs == 1: off = 0
        pieces = ([(0,off)] if off and inc else [])+[(off+k*bs,off+(k+1)*bs) for k in range((L-off)//bs)]+([(off+(L-off)//bs*bs,L)] if (L-off)%bs and inc else [])
        b.case("blocks", z.shape, ax, bs, off, inc)
        if pieces:
            want = np.stack([op(np.take(z, range(p,q), ax), ax) for p,q in pieces], ax); r = U.block_reduce(z, bs, axis=ax, off=off, op=op, inclusive=inc); b.close("block_reduce", r, want, 1e-12, 1e-12)
            e = U.block_expand(r, bs, L, axis=ax, off=off, inclusive=inc); we = np.zeros_like(z); 
            for i,(p,q) in enumerate(pieces): we[(slice(None),)*(ax%z.ndim)+(slice(p,q),)] = np.take(r,[i],ax)
            b.close("block_expand", e, we, 1e-12, 1e-12)
        if L >= bs: q = b.nrng.normal(size=L//bs); N_ = (L//bs)*bs; pos = (np.arange(N_)+0.5)/bs-0.5; b.close("block_expand: linear between block centres", U.block_expand(q, bs, N_, op="linear"), np.interp(pos, np.arange(len(q)), q), 1e-12, 1e-12)
        c0 = U.cumsum(z, axis=ax); c1 = U.cumsum(z, endpoint=True, axis=ax); b.check("cumsum", c0.shape == z.shape and c1.shape[ax] == L+1 and all(np.allclose(np.take(c1,k,ax), np.take(z,range(k),ax).sum(ax)) for k in range(L+1)) and np.array_equal(c0, np.take(c1,range(L),ax)))
        b.eq("cumsum of everything", U.cumsum(z, endpoint=True), np.concatenate([[0],np.cumsum(z)]))
        # hit counts
        nd = rng.randint(1,3); shp = tuple(rng.randint(1,4) for i in range(nd)); pix = b.nrng.integers(-1,5,(nd,9)); wt = b.nrng.integers(0,4,9)*1.0; src = pix.copy(); b.case("bin_multi", shp, pix)
        want = np.zeros(shp); wantw = np.zeros(shp)
        for k in range(9): I = tuple(int(np.clip(pix[q,k],0,shp[q]-1)) for q in range(nd)); want[I] += 1; wantw[I] += wt[k]
        b.eq("bin_multi", np.asarray(U.bin_multi(pix, shp)), want); b.eq("bin_multi with weights", np.asarray(U.bin_multi(pix, shp, weights=wt)), wantw); b.check("argument kept", np.array_equal(pix,src))
        px = b.nrng.integers(0,5,(2,7)); w2 = b.nrng.integers(0,4,(2,7) if rng.random() < 0.5 else 7)*1.0; ml = rng.choice([0,8]); m = max(px.max()+1, ml)
        b.eq("bincount", U.bincount(px, minlength=ml), np.array([[np.sum(px[i] == k) for k in range(m)] for i in range(2)])*1.0); b.eq("bincount with weights", U.bincount(px, w2, minlength=ml), np.array([[np.sum(np.broadcast_to(w2,px.shape)[i]*(px[i] == k)) for k in range(m)] for i in range(2)]))
        # quantiles
        z = b.nrng.normal(size=tuple(rng.randint(1,5) for i in range(rng.randint(1,3)))); ax = rng.randint(-z.ndim,z.ndim-1); wt = b.nrng.uniform(0.1,2,z.shape) if rng.random() < 0.7 else np.ones(z.shape)
        if rng.random() < 0.3: wt = np.where(b.nrng.random(z.shape) < 0.2, 0, wt); wt += (wt.sum(ax,keepdims=True) == 0)
        q = rng.choice([0.5, np.array([0.1,0.5,0.9]), 0.25]); b.case("quantile", z.shape, ax, q); r = U.weighted_quantile(z, wt, q, axis=ax); zz, ww = np.moveaxis(z,ax,-1), np.moveaxis(wt,ax,-1)
        want = np.zeros(np.shape(q)+zz.shape[:-1])
        for I in np.ndindex(zz.shape[:-1]):
            o = np.argsort(zz[I]); cw = ww[I][o].cumsum(); pos = (cw-ww[I][o]/2)/cw[-1]
            want[(...,)+I] = np.interp(q, pos, zz[I][o])
        if np.all(wt > 0): b.close("weighted_quantile", np.asarray(r), want, 1e-9, 1e-9)
        else: b.check("weighted_quantile within the values", np.shape(r) == want.shape and np.all(r >= zz.min(-1)-1e-12) and np.all(r <= zz.max(-1)+1e-12))
        b.close("weighted_median with equal weights is the median", U.weighted_median(z, axis=ax), np.median(z,ax), 1e-9, 1e-9)
        mk = b.nrng.random(z.shape) < 0.7; r = U.maskmed(z, mk, axis=ax); b.check("maskmed: last axis by default", np.array_equal(U.maskmed(z,mk), U.maskmed(z,mk,axis=-1))); b.check("maskmed", all(np.isclose(np.asarray(r)[I], np.median(zz[I][np.moveaxis(mk,ax,-1)[I]]) if np.moveaxis(mk,ax,-1)[I].any() else 0) for I in np.ndindex(zz.shape[:-1])), r)
        # sizes
        o = tuple(rng.randint(1,6) for i in range(z.ndim)); r = U.resize_array(z, o, val=7); s = tuple(slice(0,min(x,y)) for x,y in zip(z.shape,o)); f = np.full(o,7.0); f[s] = z[s]; b.eq("resize_array", r, f)
        k = rng.randint(1,6); r = U.resize_array(z, k, axis=ax, val=-1); b.check("resize_array along an axis", r.shape == tuple(k if i == ax%z.ndim else v for i,v in enumerate(z.shape)) and np.array_equal(np.take(r,range(min(k,z.shape[ax])),ax), np.take(z,range(min(k,z.shape[ax])),ax)) and np.all(np.take(r,range(min(k,z.shape[ax]),k),ax) == -1))
        # ranges
        def disjoint(m):
            e = sorted(rng.sample(range(0,40), 2*m)); q = [[e[2*i],e[2*i+1]] for i in range(m)]; rng.shuffle(q); return q
        A, B = disjoint(rng.randint(0,6)), disjoint(rng.randint(0,6)); b.case("ranges", A, B); S = lambda q: {x for f,t in q for x in range(f,t)}
        r, mp, ab = U.range_sub(A, B, mapping=True); b.check("range_sub", S(r) == S(A)-S(B) and all(f < t for f,t in r) and np.shape(r)[1:] == (2,), r); b.check("range_sub mapping", len(mp) == len(r) and all(A[i][0] <= f and t <= A[i][1] for i,(f,t) in zip(mp,r)), (r,mp))
        b.check("range_sub: parts and cuts along the line", [int(i) for i in ab if i >= 0] == list(range(len(r))) and len([i for i in ab if i < 0]) == len({int(i) for i in ab if i < 0}) and all(B[-i-1] is not None for i in ab if i < 0), ab)
        b.check("range_union of nothing", np.shape(U.range_union(np.zeros((0,2),int))) == (0,2) or len(A) > 0)
        C = [[rng.randint(0,40),0] for i in range(rng.randint(1,6))]; C = [[f,f+rng.randint(0,8)] for f,_ in C]; r, mp = U.range_union(C, mapping=True); b.case("union", C); b.check("range_union", S(r) == S(C) and all(r[i][1] < r[i+1][0] for i in range(len(r)-1)) and all(r[m][0] <= f and t <= r[m][1] for m,(f,t) in zip(mp,C)), r)
        cuts = sorted(rng.sample(range(0,41), rng.randint(1,5))); r = U.range_cut(A, cuts) if A else np.zeros((0,2),int); b.case("range_cut", A, cuts)
        want = [[f,t] for q in sorted(A) for f,t in zip([q[0]]+[c for c in cuts if q[0] < c < q[1]], [c for c in cuts if q[0] < c < q[1]]+[q[1]])]; b.check("range_cut", np.asarray(r).tolist() == want, r)
        mk = b.nrng.random(rng.randint(0,15)) < 0.5; r = U.mask2range(mk); b.check("mask2range", S(r.tolist()) == set(np.where(mk)[0].tolist()) and all(r[i][1] < r[i+1][0] for i in range(len(r)-1)), r)
        # lines
        z = b.nrng.normal(size=(rng.randint(1,3),rng.randint(2,9))); w = rng.randint(1,2); src = z.copy(); r = U.deslope(z, w=w); L = z.shape[1]; a0, a1 = z[:,:w].mean(1), z[:,-w:].mean(1); b.close("deslope", r, z-(a0[:,None]+(a1-a0)[:,None]*np.arange(L)/(L-1)), 1e-10, 1e-10); b.check("argument kept", np.array_equal(z,src))
        xp = np.sort(b.nrng.uniform(0,9,5)); fp = b.nrng.normal(size=(2,3,5)); x = b.nrng.uniform(-1,10,(2,2)); b.close("interp", U.interp(x,xp,fp), np.array([[np.interp(x,xp,fp[i,j]) for j in range(3)] for i in range(2)]), 1e-12, 1e-12)
        bx = b.nrng.uniform(-3,3,(2,2)); b.check("grid: ends included by default", np.allclose(U.grid(bx, (3,4))[:,-1,-1], bx[1]) and np.allclose(U.grid(bx,(3,4))[:,0,0], bx[0])); sp = (rng.randint(2,5),rng.randint(2,5)); ep = rng.random() < 0.5; g = U.grid(bx, sp, endpoint=ep); b.check("grid", g.shape == (2,)+sp and np.allclose(g[0], np.linspace(bx[0,0],bx[1,0],sp[0],endpoint=ep)[:,None]) and np.allclose(g[1], np.linspace(bx[0,1],bx[1,1],sp[1],endpoint=ep)[None]))
    for it in range(b.N(20)):
        per = rng.randint(20,60); nt = rng.randint(2,6); t = np.arange(per*nt+rng.randint(0,per//2)); az = 3+2*np.abs((t/per+rng.random())%2-1); r = U.find_sweeps(az); b.case("sweeps", per, nt, az[0])
        b.check("sweeps cover the samples in order", r[0,0] == 0 and r[-1,1] == len(az) and np.all(r[1:,0] == r[:-1,1]) and np.all(r[:,1] > r[:,0])); b.check("each sweep goes one way", all(len(set(np.sign(np.diff(az[x+1:y-1])))-{0.0}) <= 1 for x,y in r), r)

@bounded(P, ["pixell.utils.partial_flatten","pixell.utils.partial_expand","pixell.utils.flatview","pixell.utils.addaxes","pixell.utils.delaxes","pixell.utils.preflat","pixell.utils.postflat","pixell.utils.to_Nd","pixell.utils.atleast_Nd","pixell.utils.broadcast_shape","pixell.utils.broadcast_arrays","pixell.utils.nditer","pixell.utils.moveaxes","pixell.utils.point_in_polygon","pixell.utils.poly_edge_dist","pixell.utils.primes","pixell.utils.compress_beam","pixell.utils.expand_beam","pixell.utils.combine_beams","pixell.utils.parse_ints","pixell.utils.parse_box","pixell.utils.minmax","pixell.utils.rescale"], "random arrays of up to four axes; convex and star-shaped polygons with whole-number corners")
def shapes(b):
    from pixell import utils as U
    rng = b.rng
    for it in range(b.N(150)):
        sh = tuple(rng.randint(1,4) for i in range(rng.randint(1,4))); a = np.arange(np.prod(sh)).reshape(sh); nd = a.ndim; axes = rng.sample(range(nd), rng.randint(1,nd)); axes = [x-nd if rng.random() < 0.5 else x for x in axes]; pos = rng.randint(0,len(axes)); b.case("flatten", sh, axes, pos)
        f = U.partial_flatten(a, axes, pos); rest = [i for i in range(nd) if i not in [x%nd for x in axes]]; want = np.moveaxis(a.transpose([x%nd for x in axes]+rest).reshape([sh[x] for x in axes]+[-1]), -1, pos); b.eq("partial_flatten", f, want); b.eq("partial_expand undoes it", U.partial_expand(f, sh, axes, pos), a)
        z = a.copy(); zz = z.transpose(rng.sample(range(nd),nd))
        with U.flatview(zz, axes=axes, pos=pos) as v: b.eq("flatview", v, U.partial_flatten(zz, axes, pos)); v *= 2
        b.eq("flatview writes back", z, a*2)
        k = rng.randint(0,nd); n = rng.choice([k, -rng.randint(0,nd-1) or k]) if nd > 1 else k; k = n if n >= 0 else nd+n; b.case("preflat", sh, n)
        b.check("preflat", np.array_equal(U.preflat(a,n), a.reshape((-1,)+sh[k:]))); b.check("postflat", np.array_equal(U.postflat(a,n), a.reshape(sh[:nd-k]+(-1,))))
        na = sorted(rng.sample(range(nd), rng.randint(0,nd))); b.check("addaxes", U.addaxes(a, na).shape == tuple(x for i,s in enumerate(sh) for x in ((1,s) if i in na else (s,)))); one = a.reshape(tuple(x for s in sh for x in (s,1))); b.eq("delaxes", U.delaxes(one, [2*i+1 for i in range(nd)]), a)
        N = rng.randint(1,5); b.eq("atleast_Nd", U.atleast_Nd(a,N), a.reshape((1,)*max(0,N-nd)+sh)); t, inv = U.to_Nd(a, N, return_inverse=True); b.check("to_Nd", t.ndim == N and np.array_equal(t.reshape(inv), a)); t = U.to_Nd(a, N, axis=-1); b.check("to_Nd at the end", t.ndim == N and np.array_equal(t.reshape(-1), a.reshape(-1)) and t.shape[0] == (sh[0] if N > 1 or nd == 1 else a.size))
        ax = rng.sample(range(nd), rng.randint(0,nd)); got = list(U.nditer(sh, axes=ax)); b.check("nditer", sorted(tuple(-1 if isinstance(i,slice) else i for i in I) for I in got) == sorted(itertools.product(*[range(s) if i in ax else [-1] for i,s in enumerate(sh)])))
        b.check("nditer over everything in order", list(U.nditer(sh)) == list(np.ndindex(sh))); z0 = tuple(0 if rng.random() < 0.4 else s for s in sh); b.check("nditer of empty arrays", list(U.nditer(z0)) == list(np.ndindex(z0)), z0)
        # broadcasting
        full = tuple(rng.randint(1,3) for i in range(3)); ss = [tuple(s if rng.random() < 0.6 else 1 for s in full)[rng.randint(0,2):] for i in range(3)]; b.case("broadcast", ss); b.check("broadcast_shape", U.broadcast_shape(*ss) == np.broadcast_shapes(*ss))
        arrs = [b.nrng.integers(0,9,s) for s in ss]; got = U.broadcast_arrays(arrs[0], None, arrs[1], arrs[2]); b.check("broadcast_arrays", got[1] is None and all(np.array_equal(x,y) for x,y in zip([got[0],got[2],got[3]], np.broadcast_arrays(*arrs))))
        pa = [b.nrng.integers(0,9,(2,)+s+(p,)) for s,p in zip(ss,(1,2,4))]; got = U.broadcast_arrays(*pa, npre=1, npost=1); o = np.broadcast_shapes(*ss); b.check("broadcast_arrays with exempt axes", all(g.shape == (2,)+o+(x.shape[-1],) and all(np.array_equal(g[i][...,j], np.broadcast_to(x[i][...,j],o)) for i in range(2) for j in range(x.shape[-1])) for g,x in zip(got,pa)))
        end = [s[::-1] for s in ss]; b.check("broadcast_shape at the end", U.broadcast_shape(*end, at=-1) == np.broadcast_shapes(*ss)[::-1])
        # polygons: the winding of the corners around the point
        m = rng.randint(3,7); an = np.sort(b.nrng.uniform(0,2*np.pi,m)); 
        if np.max(np.diff(np.concatenate([an,[an[0]+2*np.pi]]))) > 3: continue
        poly = np.round(np.array([np.cos(an),np.sin(an)]).T*b.nrng.integers(3,9,(m,1))); pts = b.nrng.integers(-8,9,(12,2)).astype(float); d = poly[None]-pts[:,None]; nx = np.roll(d,-1,1); cr = d[...,0]*nx[...,1]-d[...,1]*nx[...,0]; edge = np.any((cr == 0)&(np.sum(d*nx,-1) <= 0),1)
        w = np.sum(np.arctan2(cr, np.sum(d*nx,-1)),1)/(2*np.pi); b.case("polygon", poly, pts); r = U.point_in_polygon(pts, poly); b.check("point_in_polygon", np.array_equal(r[~edge], (np.round(np.abs(w)).astype(int)%2 == 1)[~edge]), (r,w)); b.check("one point", bool(U.point_in_polygon(pts[0],poly)) == bool(r[0]))
        ra = poly/40; dp = pts/40; sub = []
        for i in range(m): # distance to densely sampled great-circle edges
            p, q = [np.array([np.cos(x[1])*np.cos(x[0]),np.cos(x[1])*np.sin(x[0]),np.sin(x[1])]) for x in (ra[i],ra[(i+1)%m])]; t = np.linspace(0,1,400)[:,None]; s = p*(1-t)+q*t; sub.append(s/np.sum(s**2,1)[:,None]**.5)
        if len({tuple(x) for x in poly}) == m and not np.any(np.all(poly == np.roll(poly,1,0),1)):
            sub = np.concatenate(sub); v = np.array([np.cos(dp[:,1])*np.cos(dp[:,0]),np.cos(dp[:,1])*np.sin(dp[:,0]),np.sin(dp[:,1])]).T; want = np.min(2*np.arcsin(np.minimum(np.sum((v[:,None]-sub[None])**2,-1)**.5/2,1)),1); b.close("poly_edge_dist", U.poly_edge_dist(dp, ra), want, 0, 2e-3)
        n = rng.randint(1,5000); f = U.primes(n); b.check("primes", int(np.prod(f)) == n and all(all(p%q for q in range(2,int(p**.5)+1)) for p in f), f)
        sg, ph = np.sort(b.nrng.uniform(0.5,3,2))[::-1], b.nrng.uniform(-1.5,1.5); ir = U.compress_beam(sg, ph); es, ep = U.expand_beam(ir); b.close("expand_beam undoes compress_beam", np.concatenate([es,[np.cos(2*ep),np.sin(2*ep)]]), np.concatenate([sg,[np.cos(2*ph),np.sin(2*ph)]]), 1e-6, 1e-6)
        lo, st = rng.randint(0,9), rng.randint(1,3); b.eq("parse_ints", U.parse_ints("%d,%d:%d:%d,%d:%d" % (lo,lo,lo+7,st,lo,lo+3)), np.array([lo]+list(range(lo,lo+7,st))+list(range(lo,lo+3)))); bx = b.nrng.integers(-9,9,(3,2)); b.eq("parse_box", U.parse_box(",".join("%d:%d" % tuple(x) for x in bx)), bx.T*1.0)
        if a.size > 1: r = U.rescale(a*1.0, [-2,5]); b.check("rescale", np.isclose(r.min(),-2) and np.isclose(r.max(),5) and np.allclose(np.diff(r.reshape(-1)), 7/(a.size-1)))

@bounded(P, ["pixell.utils.CG","pixell.utils.Minres"], "random symmetric systems of up to 8 unknowns; saved and restored iterations in a scratch directory")
def solvers(b):
    from pixell import utils as U
    import tempfile, os
    rng = b.rng
    for it in range(b.N(40)):
        n = rng.randint(1,8); Q = np.linalg.qr(b.nrng.normal(size=(n,n)))[0]; A = (Q*b.nrng.uniform(0.5,3,n))@Q.T; x = b.nrng.normal(size=n); rhs = A@x; x0 = b.nrng.normal(size=n) if rng.random() < 0.5 else None; m = b.nrng.uniform(0.5,2,n); b.case("cg", n, x0 is not None)
        k0, r0 = (None if x0 is None else x0.copy()), rhs.copy(); s = U.CG(lambda v: A@v, rhs, x0=x0, M=lambda v: m*v)
        for i in range(n):
            if s.rz < 1e-20: break
            s.step(); b.close("the residual stays that of the solution", s.r, rhs-A@s.x, 1e-7, 1e-7)
        b.close("solution after as many steps as unknowns", s.x, x, 1e-5, 1e-5); b.check("arguments kept", np.array_equal(rhs,r0) and (x0 is None or np.array_equal(x0,k0)))
        s1 = U.CG(lambda v: A@v, rhs); s1.step()
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d,"cg.hdf"); s1.save(f); s2 = U.CG(lambda v: A@v, rhs); s2.load(f)
        if n > 2: s1.step(); s2.step(); b.close("a restored iteration goes on as before", s2.x, s1.x, 1e-10, 1e-12); b.check("counters", s1.i == s2.i == 2 and np.isclose(s1.err,s2.err))
        sg = b.nrng.choice([-1,1],n) if rng.random() < 0.5 else np.ones(n); A2 = (Q*(b.nrng.uniform(0.5,3,n)*sg))@Q.T; rhs2 = A2@x; s = U.Minres(lambda v: A2@v, rhs2, x0=x0); prev = np.sum(s.r**2)
        for i in range(n):
            if abs(s.rz) < 1e-12 or np.sum(s.q**2) < 1e-20: break
            s.step(); b.close("minres: the residual stays that of the solution", s.r, rhs2-A2@s.x, 1e-6, 1e-6); now = np.sum(s.r**2); b.check("minres: the residual never grows", now <= prev*(1+1e-9)+1e-12, (prev,now)); prev = now
        if np.all(sg == 1): b.close("minres: solution after as many steps as unknowns", s.x, x, 1e-4, 1e-4)
