"""Arrays of symbolic shape.

The numpy contract assumed: a basic slice of an array is a view in which index k
of an axis stands for index start+step*k (0 <= k < length) of the sliced axis, a
store through a view changes exactly the elements the view stands for, and
elementwise operations act elementwise.  The content of a base array is a
function from index tuples to terms; a view is an affine index map onto it.
"""
import itertools
import numpy as np, z3
from . import sym, load, npshim
from .sym import SInt, SReal, SBool, issym, Unsupported, ite, zi, zr, And, Eq
NUMPY_VIEWS = "numpy basic indexing/assignment (affine views, elementwise stores)"

class Base:
    n = 0
    def __init__(self, shape, fn): self.shape, self.fn = tuple(shape), fn

def symbase(name, shape):
    f = z3.Function(name, *([z3.IntSort()]*len(shape)+[z3.RealSort()]))
    return Base(shape, lambda *I: f(*[zi(i) for i in I]))

class SMap:
    """view: axes[i] = (base axis map). idx(I) gives base index from view index"""
    __array_priority__ = 2000
    def __init__(self, base, shape=None, idx=None, wcs=None):
        self.base = base
        self.shape = tuple(base.shape if shape is None else shape)
        self.idx = idx or (lambda *I: I)
        self.wcs = wcs
        self.dtype = np.dtype(float)
    @property
    def ndim(self): return len(self.shape)
    @property
    def geometry(self): return self.shape, self.wcs
    def __slen__(self): return self.shape[0]
    def val(self, *I): return SReal(self.base.fn(*self.idx(*I)))
    def _view(self, sel):
        """numpy basic indexing -> (shape, idxmap)"""
        if not isinstance(sel, tuple): sel = (sel,)
        nreal = sum(1 for s in sel if s is not None and s is not Ellipsis)
        if nreal > self.ndim: raise IndexError("too many indices for array")
        if not any(s is Ellipsis for s in sel): sel = sel + (Ellipsis,)
        out = []; 
        for s in sel:
            if s is Ellipsis: out += [slice(None)]*(self.ndim-nreal)
            else: out.append(s)
        shape = []; maps = []   # maps: per base(view) axis: function of output index list
        ax = 0
        for s in out:
            n = self.shape[ax] if s is not None else None
            if s is None: shape.append(1); continue
            if isinstance(s, slice):
                a, b, st = load.v_slice_indices(s, n)
                # the sign of the step must be known to give the length
                if st > 0: ln = load.v_max(0, -((a-b)//st)) if not (not issym(st) and st == 1) else load.v_max(0, b-a)
                else:      ln = load.v_max(0, -((b-a)//(-st)))
                k = len(shape); shape.append(ln)
                maps.append(lambda J, a=a, st=st, k=k: a+st*J[k])
            else:
                if not (isinstance(s, (int,np.integer)) or isinstance(s, SInt)): raise Unsupported("fancy index on a symbolic map")
                if s < 0: s = s+n
                if not bool(And(s >= 0, s < n)): raise IndexError("index out of range")
                maps.append(lambda J, s=s: s)
            ax += 1
        return tuple(shape), maps
    def __getitem__(self, sel):
        shape, maps = self._view(sel)
        old = self.idx
        return SMap(self.base, shape, lambda *J: old(*[m(J) for m in maps]))
    def __setitem__(self, sel, v):
        tgt = self[sel]
        # element J of tgt; base index -> J must be inverted: only unit-injective affine maps
        if not isinstance(v, SMap):
            if np.ndim(v) != 0 and not issym(v): raise Unsupported("array store")
            vf = lambda *J: zr(v)
        else:
            if len(v.shape) != len(tgt.shape): raise Unsupported("broadcast store")
            for a, b in zip(v.shape, tgt.shape):
                if not bool(Eq(a, b)): raise ValueError("could not broadcast input array from shape %s into shape %s" % (v.shape, tgt.shape))
            vb, vi = v.base.fn, v.idx
            vf = lambda *J: zr(SReal(vb(*vi(*J))))
        base, oldfn, tidx, tshape = self.base, self.base.fn, tgt.idx, tgt.shape
        def newfn(*I):
            c = sym.cur()
            # fresh J: either I is the image of J or no J maps to I. affine maps with
            # step +-1 per axis are inverted exactly by probing
            J, cond = invert(tidx, tshape, I)
            return z3.If(cond, vf(*J), zr(SReal(oldfn(*I))))
        base.fn = newfn
    def copy(self):
        f, i = self.base.fn, self.idx
        return SMap(Base(self.shape, lambda *J: f(*i(*J))), wcs=self.wcs)
    def elementwise(self, o, f):
        if isinstance(o, SMap):
            for a, b in zip(o.shape, self.shape):
                if not bool(Eq(a,b)): raise ValueError("operands could not be broadcast")
            of, oi = o.base.fn, o.idx
            g = lambda *J: SReal(of(*oi(*J)))
        elif isinstance(o, np.ndarray) and o.ndim > 0:
            # a small array of concrete shape, broadcast against the trailing axes
            if o.ndim > self.ndim: raise Unsupported("array operand with more axes than the map")
            for a, b in zip(o.shape, self.shape[self.ndim-o.ndim:]):
                if a != 1 and not bool(Eq(a,b)): raise ValueError("operands could not be broadcast")
            def pick(v, J):
                if np.ndim(v) == 0: return v[()] if isinstance(v, np.ndarray) else v
                if len(v) == 1: return pick(v[0], J[1:])
                r = pick(v[len(v)-1], J[1:])
                for k in range(len(v)-2,-1,-1): r = ite(SBool(zi(J[0]) == k), pick(v[k], J[1:]), r)
                return r
            g = lambda *J: pick(np.asarray(o), J[len(J)-o.ndim:])
        else: g = lambda *J: o
        sf, si = self.base.fn, self.idx
        return SMap(Base(self.shape, lambda *J: zr(f(SReal(sf(*si(*J))), g(*J)))), wcs=self.wcs)
    def __add__(self, o): return self.elementwise(o, lambda a,b: a+b)
    __radd__ = __add__
    def __mul__(self, o): return self.elementwise(o, lambda a,b: a*b)
    __rmul__ = __mul__
    def __sub__(self, o): return self.elementwise(o, lambda a,b: a-b)
    def __rsub__(self, o): return self.elementwise(o, lambda a,b: b-a)

def invert(tidx, tshape, I):
    """J and the condition that I = tidx(J), 0<=J<shape, for an axis-wise affine map"""
    n = len(tshape)
    zero = [0]*n
    off = tidx(*zero)
    J = [None]*n; cond = []
    # find which base axis each view axis drives
    for k in range(n):
        e = list(zero); e[k] = 1
        p = tidx(*e)
        hit = [a for a in range(len(off)) if not same_term(p[a], off[a])]
        if not hit: J[k] = 0; continue
        if len(hit) != 1: raise Unsupported("non-axiswise view")
        a = hit[0]
        st = sub(p[a], off[a])
        if not (isinstance(st, int) and st in (1,-1)):
            q = sym.cur().quot(zi(I[a]) - zi(off[a]), zi(st))
            J[k] = SInt(q[0]); cond.append(q[1] == 0)
        else: J[k] = (I[a]-off[a])*st
        cond.append(zi(J[k]) >= 0); cond.append(zi(J[k]) < zi(tshape[k]))
    driven = set()
    back = tidx(*[SInt(zi(j)) for j in J])
    for a in range(len(off)): cond.append(zi(back[a]) == zi(I[a]))
    return J, z3.And(*cond)

def same_term(a, b):
    return z3.is_true(z3.simplify(zi(a) == zi(b)))
def sub(a, b):
    d = z3.simplify(zi(a)-zi(b))
    return d.as_long() if z3.is_int_value(d) else SInt(d)
