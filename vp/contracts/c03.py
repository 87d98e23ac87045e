"""C03: strided pixel boxes behave as the index sets they denote."""
import itertools
import numpy as np
from vp.core import *
from vp import load as L
P = "C03"

def elems(box): return list(range(box[0], box[1], box[2]))

def sbox(c, p, pos=None, lo=None, hi=None, nmax=None):
    """an arbitrary non-empty strided box: start a, n elements, step s"""
    a = c.int(p+"a", lo=lo, hi=hi, sample=(-6,14) if lo is None else None)
    n = c.int(p+"n", lo=1, sample=(1,6))
    s = c.int(p+"s", ne=0, sample=(-3,3))
    if pos is True: c.assume(s > 0)
    if pos is False: c.assume(s < 0)
    return a, n, s

@contract(P, ["pixell.utils.sbox_size","pixell.utils.sbox_fix","pixell.utils.sbox_fix0"], samples=400)
def sbox_size_and_fix(c):
    """the end may be anywhere in the last step"""
    U = c.mod("utils")
    a, n, s = sbox(c, "x")
    slack = c.int("slack", lo=0, sample=(0,2))
    c.assume(slack < abs(s))
    e = a + n*s - ite(s > 0, slack, -slack)
    box = c.arr([a, e, s])
    c.check("size", Eq(U.sbox_size(box), n))
    r = U.sbox_fix(box)
    c.check_all("fixed box", [Eq(r[0], a), Eq(r[1], a+n*s), Eq(r[2], s)])
    c.check_all("argument unchanged", [Eq(box[0], a), Eq(box[1], e), Eq(box[2], s)])
    r2 = U.sbox_fix(c.arr([a, a+n]))
    c.check_all("default step", [Eq(r2[0], a), Eq(r2[1], a+n), Eq(r2[2], 1)])

@contract(P, ["pixell.utils.sbox_flip"], samples=300)
def sbox_flip_reverses(c):
    U = c.mod("utils")
    a, n, s = sbox(c, "x")
    r = U.sbox_flip(c.arr([a, a+n*s, s]))
    c.check("starts at the last element", Eq(r[0], a+(n-1)*s))
    c.check("step", Eq(r[2], -s))
    c.check("end", Eq(r[1], a-s))
    q = U.sbox_flip(r)
    c.check_all("involution", [Eq(q[0], a), Eq(q[1], a+n*s), Eq(q[2], s)])

def _slice_elems(c, sl, n):
    return L.v_slice_indices(sl, n) if c.symbolic else sl.indices(n)

@contract(P, ["pixell.utils.sbox2slice"], samples=300)
def sbox2slice_selects_box(c):
    U = c.mod("utils")
    a, n, s = sbox(c, "x", lo=0)
    N = c.int("N", lo=1, sample=(1,20))
    c.assume(a < N, a+(n-1)*s >= 0, a+(n-1)*s < N)
    sl = U.sbox2slice(c.arr([[a, a+n*s, s]]))
    c.check("ellipsis first", sl[0] is Ellipsis and len(sl) == 2)
    A, E, S = _slice_elems(c, sl[1], N)
    c.check("start", Eq(A, a)); c.check("step", Eq(S, s))
    # number of elements: E is within one step after the last
    last = a+(n-1)*s
    c.check("end", ite(s > 0, And(E > last, E <= last+s), And(E < last, E >= last+s)) if c.symbolic else len(range(A,E,S)) == n)

for _sa in (True, False):
    for _sb in (True, False):
        def _mul(c, sa=_sa, sb=_sb):
            U = c.mod("utils")
            a, n, s = sbox(c, "x", pos=sa); b, m, t = sbox(c, "y", pos=sb, lo=0)
            c.assume(b < n, b+(m-1)*t >= 0, b+(m-1)*t < n)
            c.hint(m-1)
            for v in (b+1, b+(m-1)*t+1):
                c.lemma("products are monotonic", Implies(And(v <= n, s < 0), v*s >= n*s)); c.lemma("products are monotonic", Implies(And(v <= n, s > 0), v*s <= n*s))
                c.lemma("products are monotonic", Implies(And(v >= 1, s < 0), v*s <= s)); c.lemma("products are monotonic", Implies(And(v >= 1, s > 0), v*s >= s))
            r = U.sbox_mul(c.arr([[a, a+n*s, s]]), c.arr([[b, b+m*t, t]]))[0]
            c.check("start", Eq(r[0], a+b*s)); c.check("step", Eq(r[2], s*t))
            c.check("count", Eq(r[1], a+b*s+m*(s*t)))
        contract(P, ["pixell.utils.sbox_mul","pixell.utils.sbox_flip","pixell.utils.sbox_fix"], samples=150, name="sbox_mul_%s%s" % ("+-"[not _sa], "+-"[not _sb]))(_mul)

@contract(P, ["pixell.utils.sbox_div"], samples=300)
def sbox_div_inverts_mul(c):
    """element j of a is element c[j] of b, also where a reaches outside b (index beyond its ends)"""
    U = c.mod("utils")
    b, m, t = sbox(c, "b")
    i, k, u = c.int("i", sample=(-4,5)), c.int("k", lo=1, sample=(1,4)), c.int("u", ne=0, sample=(-2,2))
    a0, s = b+i*t, t*u
    r = U.sbox_div(c.arr([a0, a0+k*s, s]), c.arr([b, b+m*t, t]))
    c.check("start", Eq(r[0], i)); c.check("step", Eq(r[2], u)); c.check("end", Eq(r[1], i+k*u))

# ---- wrapping: the loop is taken through every number of turns up to two by the
# solver; the loop contract below covers any number
def wrap_spec(c, a, s, i, w, cap):
    """position in the array of element i, and whether it is available"""
    p = a + s*i
    if w is not None: p = p % w
    ok = And(p >= 0, p < cap)
    return p, ok

def _wrap_contract(c, neg, wrapped, strides):
    U = c.mod("utils")
    a, n = c.int("a", sample=(-12,20)), c.int("n", lo=1, sample=(1,14))
    s = c.choose("s", strides)
    cap = c.int("cap", lo=1, sample=(1,12))
    if wrapped:
        w = c.int("w", lo=1, sample=(1,14))
        c.assume(n*abs(s) <= w)
    else: w = 0
    st = -s if neg else s
    src = c.arr([[a, a+n*st, st]])
    res = U.sbox_wrap(src, wrap=w, cap=cap)
    c.check_all("argument unchanged", [Eq(src[0][0], a), Eq(src[0][1], a+n*st), Eq(src[0][2], st)])
    # arbitrary output element i: it is written iff its source exists, and from the right place
    i = c.int("i", lo=0, sample=(0,13)); c.assume(i < n)
    p, ok = wrap_spec(c, a, st, i, w if wrapped else None, cap)
    hits = []
    for ib, ob in res:
        (i0,i1,di), (o0,o1,do) = ib[0], ob[0]
        num = U.sbox_size(c.arr([i0,i1,di]))
        c.check("pieces have matching sizes", Eq(num, U.sbox_size(c.arr([o0,o1,do]))))
        c.check("pieces are not empty", num > 0)
        j = (i-o0)*do                      # do is +-1
        inside = And(j >= 0, j < num)
        hits.append((inside, i0+di*j))
        c.check("pieces inside the array", And(i0 >= 0, i0+di*(num-1) < cap, i0+di*(num-1) >= 0, i0 < cap))
        c.check("pieces inside the output", And(o0 >= 0, o0 < n, o0+do*(num-1) >= 0, o0+do*(num-1) < n))
        c.check("unit output step", Or(Eq(do,1), Eq(do,-1)))
    got = Or(*[h for h,_ in hits]) if hits else False
    c.check("covered exactly when available", And(Implies(ok, got), Implies(got, ok)))
    for k, (h, q) in enumerate(hits): c.check("read from the right element", Implies(h, Eq(q, p)))
    for (h1,_), (h2,_) in itertools.combinations(hits, 2): c.check("each element once", Not(And(h1,h2)))

for _neg in (False, True):
    for _w in (False, True):
        for _st in ((1,), (2,), (3,)):
            contract(P, ["pixell.utils.sbox_wrap","pixell.utils.sbox_fix","pixell.utils.sbox_size","pixell.utils.sbox_flip"],
                scope="all boxes with step %s%d%s" % ("-" if _neg else "+", _st[0], ", not longer than one turn" if _w else ""), samples=300, wall=200,
                name="sbox_wrap_%s%s%d" % ("wrap_" if _w else "cap_", "n" if _neg else "p", _st[0]))(lambda c, neg=_neg, w=_w, st=_st: _wrap_contract(c, neg, w, st))

# ---------------------------------------------------------------- bounded
@bounded(P, ["pixell.utils.sbox_intersect_1d","pixell.utils.sbox_intersect"], "all pairs of boxes with |start|<=5, 1..4 elements, steps 1..3 and -1,-2; 2-D and wrapped samples")
def intersections(b):
    from pixell import utils
    boxes = [[a, a+n*s, s] for a in range(-3,6,1) for n in (1,2,4) for s in (1,2,3,-1,-2)]
    for x in boxes:
        for y in boxes:
            if b.tier == "quick" and b.rng.random() < 0.6: continue
            b.case(x, y)
            r = utils.sbox_intersect_1d(np.array(x), np.array(y))
            want = sorted(set(elems(x)) & set(elems(y)))
            got = [e for q in r for e in elems([int(v) for v in q])]
            b.check("intersection", sorted(got) == want and len(set(got)) == len(got), (got, want))
            b.check("positive step", all(q[2] > 0 for q in r))
    rng = b.rng
    for it in range(b.N(600)):
        w = rng.randint(3,12)
        mk = lambda: (lambda a,s: [a, a+rng.randint(1, max(1,w//s))*s, s])(rng.randint(-8,15), rng.choice([1,1,2]))
        x, y = mk(), mk()
        b.case("wrap", w, x, y)
        got = sorted(set(e % w for q in utils.sbox_intersect_1d(np.array(x), np.array(y), wrap=w) for e in elems([int(v) for v in q])))
        want = sorted(set(e % w for e in elems(x)) & set(e % w for e in elems(y)))
        b.check("wrapped intersection", got == want, (got, want))
    for it in range(b.N(200)):
        mk = lambda: [[rng.randint(0,6), 0, rng.choice([1,2,3])] for d in range(2)]
        A, B2 = mk(), mk()
        for q in A+B2: q[1] = q[0]+rng.randint(1,4)*q[2]
        b.case("2d", A, B2)
        r = utils.sbox_intersect(np.array(A), np.array(B2))
        got = sorted((i,j) for q in r for i in elems(q[0]) for j in elems(q[1]))
        want = sorted((i,j) for i in set(elems(A[0]))&set(elems(B2[0])) for j in set(elems(A[1]))&set(elems(B2[1])))
        b.check("2d intersection", got == want, (got, want))
    def boxes(shape, W):
        out = np.zeros(tuple(shape)+(2,3), int)
        for I in np.ndindex(*shape):
            for d in range(2): s = rng.choice([1,1,2]); a = rng.randint(-3,9); out[I+(d,)] = [a, a+rng.randint(1, max(1,(W[d] or 6)//s))*s, s]
        return out
    for it in range(b.N(80)):
        W = [rng.choice([0, rng.randint(3,8)]) for d in range(2)]; sa, sb = rng.choice([(),(2,),(2,3)]), rng.choice([(),(3,),(1,)])
        A, B2 = boxes(sa, W), boxes(sb, W); A0, B0 = A.copy(), B2.copy(); b.case("stacks", A.tolist(), B2.tolist(), W)
        r = utils.sbox_intersect(A, B2, wrap=W)
        b.check("one list per pair", np.shape(np.empty(sa+sb)) == (r.shape if isinstance(r, np.ndarray) and sa+sb else ()), type(r))
        red = lambda E, d: set(e % W[d] for e in E) if W[d] else set(E)
        for I in np.ndindex(*sa):
            for J in np.ndindex(*sb):
                rr = r[I+J] if sa+sb else r
                got = set((i % W[0] if W[0] else i, j % W[1] if W[1] else j) for q in rr for i in elems([int(v) for v in q[0]]) for j in elems([int(v) for v in q[1]]))
                want = set(itertools.product(red(elems(A[I][0]),0)&red(elems(B2[J][0]),0), red(elems(A[I][1]),1)&red(elems(B2[J][1]),1)))
                b.check("intersection of stacks of boxes", got == want, (sorted(got), sorted(want)))
        b.eq("arguments unchanged", A, A0); b.eq("arguments unchanged", B2, B0)
    for it in range(b.N(150)):
        mk = lambda n: (lambda s, k: (lambda a: [a, a+k*s, s])(rng.randint(0,n-1-(k-1)*s) if s > 0 else rng.randint(-(k-1)*s,n-1)))(*(lambda s: (s, rng.randint(1, (n-1)//abs(s)+1)))(rng.choice([1,2,3,-1,-2])))
        sh = rng.choice([(2,),(3,2),(1,2)]); N = 12
        A = np.zeros(sh+(3,), int); B2 = A.copy()
        for I in np.ndindex(*sh): A[I] = mk(N); B2[I] = mk(len(elems(A[I])))
        b.case("mul", A.tolist(), B2.tolist()); r = utils.sbox_mul(A, B2)
        for I in np.ndindex(*sh): b.check("slice of a slice", elems([int(v) for v in r[I]]) == [elems(A[I])[i] for i in elems(B2[I])], r[I].tolist())
        f = utils.sbox_flip(A); b.check("flip of stacks", all(elems([int(v) for v in f[I]]) == elems(A[I])[::-1] for I in np.ndindex(*sh)))
        b.eq("sizes of stacks", utils.sbox_size(A), np.array([len(elems(A[I])) for I in np.ndindex(*sh)]).reshape(sh))

@bounded(P, ["pixell.utils.sbox_wrap","pixell.utils.sbox2slice"], "random 1-D and 2-D boxes, starts -20..30, up to 4 turns, strides 1..4 both signs, with and without a cap")
def wrapping(b):
    from pixell import utils
    rng = b.rng
    for it in range(b.N(2500)):
        nd = rng.choice([1,2])
        cap = [rng.randint(1,10) for d in range(nd)]
        wrap = [rng.choice([0, rng.randint(1,14)]) for d in range(nd)]
        box = []
        for d in range(nd):
            s = rng.choice([1,1,2,3,4,-1,-2,-3]); n = rng.randint(1,9); a = rng.randint(-20,30)
            box.append([a, a+n*s, s])
        b.case(box, wrap, cap)
        arr = b.nrng.random(tuple(cap)); src = np.array(box); src0 = src.copy()
        sizes = tuple(len(elems(q)) for q in box)
        out = np.full(sizes, -1.0); cnt = np.zeros(sizes, int)
        for ib, ob in utils.sbox_wrap(src, wrap=wrap, cap=cap):
            out[utils.sbox2slice(ob)] = arr[utils.sbox2slice(ib)]
            cnt[utils.sbox2slice(ob)] += 1
        want = np.full(sizes, -1.0); wc = np.zeros(sizes, int)
        for I in itertools.product(*[range(n) for n in sizes]):
            J = []
            for d, i in enumerate(I):
                p = box[d][0]+box[d][2]*i
                if wrap[d]: p %= wrap[d]
                J.append(p if 0 <= p < cap[d] else None)
            if None not in J: want[I] = arr[tuple(J)]; wc[I] = 1
        b.eq("values", out, want); b.eq("each element once", cnt, wc); b.eq("argument unchanged", src, src0)

@bounded(P, ["pixell.utils.box_slice","pixell.utils.box_area","pixell.utils.box_overlap","pixell.utils.bounding_box","pixell.utils.pad_box","pixell.utils.widen_box"], "random integer boxes in 1..3 dimensions")
def plain_boxes(b):
    from pixell import utils
    rng = b.rng
    for it in range(b.N(400)):
        nd = 2
        mk = lambda: np.array([[rng.randint(-5,5) for d in range(nd)], [0]*nd])
        A, B2 = mk(), mk()
        A[1] = A[0]+[rng.randint(1,6) for d in range(nd)]; B2[1] = B2[0]+[rng.randint(1,6) for d in range(nd)]
        b.case(A.tolist(), B2.tolist())
        inA = set(itertools.product(*[range(A[0,d],A[1,d]) for d in range(nd)])); inB = set(itertools.product(*[range(B2[0,d],B2[1,d]) for d in range(nd)]))
        b.check("overlap area", int(utils.box_overlap(A,B2)) == len(inA&inB), (utils.box_overlap(A,B2), len(inA&inB)))
        b.check("area", int(utils.box_area(A)) == len(inA))
        s = utils.box_slice(A, B2)
        sel = set(itertools.product(*[range(A[0,d]+s[0,d], A[0,d]+s[1,d]) for d in range(nd)]))
        b.check("box slice", sel == (inA&inB), (s.tolist(),))
        nd3 = rng.choice([1,3]); A3 = np.array([[rng.randint(-5,5) for d in range(nd3)]]*2); A3[1] += rng.randint(1,6); B3 = np.array([[rng.randint(-5,5) for d in range(nd3)]]*2); B3[1] += rng.randint(1,6)
        s3 = utils.box_slice(A3, B3); lo3, hi3 = np.clip(B3-A3[0], 0, A3[1]-A3[0]); b.eq("box slice in %d dimensions" % nd3, s3, [lo3, hi3])
        C3 = np.array([A,B2,A+1]); sst = utils.box_slice(C3, np.array([B2,A])); b.eq("box slices of stacks", sst, np.array([[utils.box_slice(x,y) for y in (B2,A)] for x in C3]))
        pts = b.nrng.random((5,rng.choice([1,2,3]))); b.eq("bounding box of points", utils.bounding_box(pts), [pts.min(0), pts.max(0)])
        bb = utils.bounding_box([A,B2])
        b.eq("bounding box", bb, [np.minimum(A[0],B2[0]), np.maximum(A[1],B2[1])])
        p = rng.randint(0,3)
        b.eq("pad", utils.pad_box(A, p), [A[0]-p, A[1]+p]); b.eq("pad descending", utils.pad_box(A[::-1], p), [A[1]+p, A[0]-p])
        b.close("widen", utils.widen_box(A*1.0, 2.0, relative=False), [A[0]-1.0, A[1]+1.0])
        b.close("widen descending", utils.widen_box(A[::-1]*1.0, 2.0, relative=False), [A[1]+1.0, A[0]-1.0])
        b.close("widen rel", utils.widen_box(A*1.0, 0.5), [A[0]-(A[1]-A[0])*0.25, A[1]+(A[1]-A[0])*0.25])
