"""numpy as seen by the verified code.

Small arrays of symbolic scalars are object arrays (class SArr); numpy's own
indexing, broadcasting, reshaping and concatenation run on them unchanged.
Only the element operations are replaced, by their mathematical meaning.
"""
import math, types
import numpy as np, z3
from . import sym
from .sym import Sym, SInt, SReal, SBool, issym, Unsupported, ite, cast

_NUMK = "iufb"

def hassym(x, depth=0):
    if issym(x): return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(issym(v) for v in np.ndarray.ravel(x.view(np.ndarray)))
    if isinstance(x, (list, tuple)) and depth < 6: return any(hassym(v, depth+1) for v in x)
    return False

class NInt(int):
    """an integer read from an array, which like a numpy scalar can be indexed with ... and None"""
    def __getitem__(self, sel): r = np.empty((), object); r[()] = int(self); return r[sel].view(SArr)

class SArr(np.ndarray):
    def __array_finalize__(self, obj): pass
    @property
    def dtype(self):
        d = np.ndarray.dtype.__get__(self)
        if d != object: return d
        k = "b"
        for v in np.ndarray.ravel(self.view(np.ndarray)):
            if isinstance(v, (SReal, float, np.floating)): return np.dtype(float)
            elif isinstance(v, (complex, np.complexfloating)): return np.dtype(complex)
            elif isinstance(v, (SBool, bool, np.bool_)): pass
            elif isinstance(v, (SInt, int, np.integer)): k = "i"
            else: return d
        if self.size == 0: return np.dtype(float)
        return np.dtype(int) if k == "i" else np.dtype(bool)
    @property
    def rawdtype(self): return np.ndarray.dtype.__get__(self)
    def astype(self, t, copy=True, **kw):
        t = np.dtype(t)
        if self.rawdtype != object: return np.ndarray.astype(self, t, copy=copy, **kw)
        if not copy and self.dtype == t: return self
        return emap(lambda v: cast(v, t), self)
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = [i.view(np.ndarray) if isinstance(i, SArr) else i for i in inputs]
        if method == "__call__" and ufunc.__name__ in ELEM and out is None and not kw:
            f = ELEM[ufunc.__name__]
            return emap(f, *ins)
        if out is not None:
            outs = tuple(o.view(np.ndarray) if isinstance(o, SArr) else o for o in out)
            if method == "__call__":
                if ufunc.__name__ in ELEM: res = emap(ELEM[ufunc.__name__], *ins)
                else: res = ufunc(*[_ob(i) for i in ins])
                outs[0][...] = res
                return out[0]
            kw["out"] = outs
        if method == "__call__":
            ins = [_ob(i) for i in ins]
        res = getattr(ufunc, method)(*ins, **kw)
        return _wrapres(res)
    def __array_function__(self, func, types_, args, kwargs):
        if func in FUNCS: return FUNCS[func](*args, **kwargs)
        return _wrapres(func(*_unw(args), **{k:_unw(v) for k,v in kwargs.items()}))
    def __getitem__(self, sel):
        r = np.ndarray.__getitem__(self, _idx(sel))
        return NInt(r) if type(r) is int else _wrapres(r)
    def __setitem__(self, sel, v):
        np.ndarray.__setitem__(self, _idx(sel), v)
    def any(self, axis=None, **kw): return _wrapres(np.any(_tobool(self), axis=axis))
    def all(self, axis=None, **kw): return _wrapres(np.all(_tobool(self), axis=axis))
    def copy(self, order="C"): return np.ndarray.copy(self, order).view(SArr)
    def min(self, *a, **k): return FUNCS[np.min](self, *a, **k)
    def max(self, *a, **k): return FUNCS[np.max](self, *a, **k)

def _ob(i):
    if issym(i):
        r = np.empty((), object); r[()] = i; return r
    return i

def _unw(a):
    if isinstance(a, SArr): return a.view(np.ndarray)
    if isinstance(a, list): return [_unw(x) for x in a]
    if isinstance(a, tuple): return tuple(_unw(x) for x in a)
    return a

def _wrapres(r):
    if isinstance(r, SArr): return r
    if isinstance(r, np.ndarray): return r.view(SArr) if r.dtype == object else r
    if isinstance(r, tuple): return tuple(_wrapres(x) for x in r)
    if isinstance(r, list): return [_wrapres(x) for x in r]
    return r

def _tobool(a):
    a = np.asarray(_unw(a))
    if a.dtype == object:
        out = np.empty(a.shape, bool)
        for I in np.ndindex(a.shape): out[I] = bool(a[I])
        return out
    return a.astype(bool)

def _idx(sel):
    def one(s):
        if isinstance(s, SArr):
            d = s.dtype
            if d.kind == "b": return _tobool(s)
            if d.kind in "iu":
                b = s.view(np.ndarray)
                if b.dtype == object: return np.array([int(v) for v in b.ravel()], int).reshape(b.shape)
        if isinstance(s, SBool): return bool(s)
        if isinstance(s, SInt): return s.__index__()
        if isinstance(s, slice):
            f = lambda v: v.__index__() if issym(v) else v
            return slice(f(s.start), f(s.stop), f(s.step))
        return s
    return tuple(one(s) for s in sel) if isinstance(sel, tuple) else one(sel)

def emap(f, *args):
    bs = np.broadcast_arrays(*[np.asarray(_ob(a)) if not isinstance(a, np.ndarray) else a.view(np.ndarray) for a in args])
    out = np.empty(bs[0].shape, object)
    for I in np.ndindex(out.shape): out[I] = f(*[b[I] for b in bs])
    if out.shape == () : return out[()]
    return out.view(SArr)

def _u(name, cf):
    def f(v):
        if issym(v): return sym.ufun(name, v)
        return cf(v)
    return f
def e_floor(v): return SReal(z3.ToReal(v.__floor__().e)) if isinstance(v, SReal) else (v if issym(v) else np.floor(v))
def e_ceil(v):  return SReal(z3.ToReal(v.__ceil__().e)) if isinstance(v, SReal) else (v if issym(v) else np.ceil(v))
def e_rint(v):  return SReal(z3.ToReal(sym.rint(v).e)) if isinstance(v, SReal) else (v if issym(v) else np.rint(v))
def e_trunc(v): return SReal(z3.ToReal(v.__trunc__().e)) if isinstance(v, SReal) else (v if issym(v) else np.trunc(v))
def e_min(a, b): return ite(a <= b, a, b) if issym(a) or issym(b) else np.minimum(a, b)
def e_max(a, b): return ite(a >= b, a, b) if issym(a) or issym(b) else np.maximum(a, b)
def e_sign(v):
    if not issym(v): return np.sign(v)
    c = sym.cur()
    f = c.forced(sym._num(v) > 0)
    if f is True: return 1
    g = c.forced(sym._num(v) < 0)
    if g is True: return -1
    if f is False and g is False: return 0
    return ite(v > 0, 1, ite(v < 0, -1, 0))
def e_abs(v): return abs(v)
def e_isfinite(v): return True if issym(v) else bool(np.isfinite(v))
def e_isnan(v): return False if issym(v) else bool(np.isnan(v))
def e_sqrt(v): return v.sqrt() if issym(v) else math.sqrt(v)
def e_deg2rad(v): return v*sym.PI/180 if issym(v) else np.deg2rad(v)
def e_not(v): return sym.Not(v) if issym(v) else (not v)
def e_inv(v): return sym.Not(v) if isinstance(v, SBool) else (not v) if isinstance(v, (bool,np.bool_)) else ~v
def e_and(a,b): return sym.And(a,b) if issym(a) or issym(b) else bool(a and b)
def e_or(a,b): return sym.Or(a,b) if issym(a) or issym(b) else bool(a or b)
def e_square(v): return v*v
def e_recip(v): return 1/v
def e_conj(v): return v if issym(v) else np.conj(v)
def e_fmod(a, b):
    if not (issym(a) or issym(b)): return math.fmod(a, b)
    x = sym.SReal(sym.zr(a)/sym.zr(b)).__trunc__()
    return SReal(sym.zr(a) - sym.zr(b)*z3.ToReal(x.e))
def e_arctan2(y, x): return sym.ufun("arctan2", y, x) if issym(x) or issym(y) else math.atan2(y, x)
ELEM = {"arctan2":e_arctan2,"arctan":_u("arctan",math.atan),"floor":e_floor,"ceil":e_ceil,"rint":e_rint,"trunc":e_trunc,"minimum":e_min,"maximum":e_max,"fmin":e_min,"fmax":e_max,
    "sign":e_sign,"absolute":e_abs,"fabs":e_abs,"isfinite":e_isfinite,"isnan":e_isnan,"sqrt":e_sqrt,"deg2rad":e_deg2rad,"radians":e_deg2rad,
    "sin":_u("sin",math.sin),"cos":_u("cos",math.cos),"tan":_u("tan",math.tan),"arcsin":_u("arcsin",math.asin),"arccos":_u("arccos",math.acos),
    "invert":e_inv,"logical_not":e_not,"logical_and":e_and,"logical_or":e_or,"square":e_square,"reciprocal":e_recip,"conjugate":e_conj,"fmod":e_fmod,
    "exp":_u("exp",math.exp),"log":_u("log",math.log),"log10":_u("log10",math.log10),"log2":_u("log2",math.log2)}

def _reduce(f2):
    def f(a, axis=None, out=None, keepdims=False, **kw):
        a = np.asarray(_unw(asarr(a)))
        if axis is None:
            r = None
            for v in a.ravel(): r = v if r is None else f2(r, v)
            return r
        ax = (axis,) if not isinstance(axis, tuple) else axis
        if len(ax) != 1: raise Unsupported("multi-axis reduce")
        a = np.moveaxis(a, ax[0], 0)
        r = a[0]
        for i in range(1, a.shape[0]): r = emap(f2, r, a[i])
        r = _wrapres(r)
        return np.expand_dims(r, ax[0]) if keepdims else r
    return f

def f_where(c, a=None, b=None):
    if a is None: return np.where(_tobool(c))
    if issym(c) or hassym(c): return emap(ite, c, a, b)
    if hassym(a) or hassym(b): return emap(lambda c,a,b: a if c else b, c, a, b)
    return _wrapres(np.where(_unw(c), _unw(a), _unw(b)))

def f_round(a, decimals=0, out=None):
    if decimals: raise Unsupported("round decimals")
    if issym(a): return e_rint(a)
    if hassym(a): return emap(e_rint, a)
    return np.round(_unw(a))

FUNCS = {np.where:f_where, np.min:_reduce(e_min), np.max:_reduce(e_max), np.amin:_reduce(e_min), np.amax:_reduce(e_max),
    np.round:f_round,
    np.any: lambda a, axis=None, **k: _wrapres(np.any(_tobool(a), axis=axis)),
    np.all: lambda a, axis=None, **k: _wrapres(np.all(_tobool(a), axis=axis)),
    np.clip: lambda a, lo, hi, out=None, **k: _out(emap(lambda v,l,h: e_min(e_max(v,l),h), a, lo, hi), out),
    np.sum: lambda a, axis=None, **k: _wrapres(np.add.reduce(np.asarray(_unw(asarr(a))), axis=axis)) if axis is not None else _fold(a, lambda x,y:x+y, 0),
    np.prod: lambda a, axis=None, **k: _wrapres(np.multiply.reduce(np.asarray(_unw(asarr(a))), axis=axis)) if axis is not None else _fold(a, lambda x,y:x*y, 1),
    np.zeros_like: lambda a, dtype=None, shape=None, **k: full(a.shape if shape is None else shape, 0, dtype or a.dtype),
    np.ones_like: lambda a, dtype=None, shape=None, **k: full(a.shape if shape is None else shape, 1, dtype or a.dtype),
    np.empty_like: lambda a, dtype=None, shape=None, **k: full(a.shape if shape is None else shape, 0, dtype or a.dtype),
    np.full_like: lambda a, v, dtype=None, shape=None, **k: full(a.shape if shape is None else shape, v, dtype or a.dtype),
}
def _fold(a, f, r):
    for v in np.asarray(_unw(asarr(a))).ravel(): r = f(r, v)
    return r

def _out(r, out):
    if out is None: return r
    out[...] = r; return out
def asarr(x, dtype=None, copy=False):
    """np.array/asarray/asanyarray"""
    if hasattr(x, "__sarray__"): return x.__sarray__(dtype)
    if dtype is not None and np.dtype(dtype) == object: dtype = None
    if isinstance(x, SArr):
        if dtype is not None and x.dtype != np.dtype(dtype): return x.astype(dtype)
        return x.copy() if copy else x
    if hassym(x):
        if issym(x):
            r = np.empty((), object); r[()] = x; r = r.view(SArr)
        else:
            # nested lists may contain SArr rows
            def de(v):
                if isinstance(v, np.ndarray): return v.tolist() if v.dtype != object else [de(u) for u in v.view(np.ndarray)] if v.ndim else v[()]
                if isinstance(v, (list,tuple)): return [de(u) for u in v]
                return v
            r = np.array(de(x), dtype=object).view(SArr)
        if dtype is not None: r = r.astype(dtype)
        return r
    if isinstance(x, np.ndarray) and x.dtype == object: return x.view(SArr)
    r = np.array(x, dtype=dtype) if copy else np.asarray(x, dtype=dtype)
    return r

def full(shape, val, dtype=None, **kw):
    sh = tuple(int(s) for s in shape) if isinstance(shape, (tuple,list,np.ndarray)) else (int(shape),)
    if dtype is None: dtype = float if not issym(val) else None
    k = np.dtype(dtype).kind if dtype is not None else "O"
    if k not in "iufbO": return np.full(sh, val, dtype)
    out = np.empty(sh, object)
    v = cast(val, dtype) if (dtype is not None and np.ndim(val) == 0) else val
    out[...] = v
    return out.view(SArr)

class NP(types.ModuleType):
    """the module object bound to the name np in verified code"""
    def __init__(self):
        super().__init__("np_symbolic")
    def __getattr__(self, name):
        r = getattr(np, name)
        if isinstance(r, np.ufunc): return _uf(r)
        return _fn(r) if callable(r) and not isinstance(r, type) else r
    pi = sym.PI
    def array(self, x, dtype=None, copy=True, **kw): return asarr(x, dtype, copy=True)
    def asarray(self, x, dtype=None, **kw): return asarr(x, dtype)
    def asanyarray(self, x, dtype=None, **kw): return asarr(x, dtype)
    def ascontiguousarray(self, x, dtype=None): return asarr(x, dtype)
    def zeros(self, shape, dtype=float, **kw): return full(shape, 0, dtype)
    def zeros_like(self, a, dtype=None, order=None, subok=True, shape=None):
        if shape is None or not (hassym(a) or isinstance(a, SArr)): return np.zeros_like(_unw(a), dtype=dtype, subok=subok, shape=shape) if shape is not None else np.zeros_like(a, dtype=dtype, subok=subok)
        return full(shape, 0, dtype if dtype is not None else a.dtype)
    def empty(self, shape, dtype=float, **kw): return full(shape, 0, dtype)
    def ones(self, shape, dtype=float, **kw): return full(shape, 1, dtype)
    def full(self, shape, val, dtype=None, **kw): return full(shape, val, dtype)
    def prod(self, a, axis=None, **kw): return FUNCS[np.prod](a, axis=axis) if hassym(a) else np.prod(_unw(a), axis=axis)
    def sum(self, a, axis=None, **kw): return FUNCS[np.sum](a, axis=axis) if hassym(a) else np.sum(_unw(a), axis=axis)
    def where(self, *a): return f_where(*a)
    def any(self, a, axis=None): return _wrapres(np.any(_tobool(a), axis=axis))
    def all(self, a, axis=None): return _wrapres(np.all(_tobool(a), axis=axis))
    def ndim(self, a): return 0 if issym(a) else np.ndim(_unw(a))
    def isscalar(self, a): return True if issym(a) else np.isscalar(a)
    def stack(self, arrays, axis=0, **kw): return _wrapres(np.stack([np.asarray(_unw(asarr(a))) for a in arrays], axis))
    def concatenate(self, arrays, axis=0, **kw):
        arrays = [np.asarray(_unw(asarr(a))) for a in arrays]
        r = np.concatenate(arrays, axis)
        if r.dtype == object and all(isinstance(v, (bool,np.bool_)) or isinstance(v, (int,float)) and v in (0,1) for v in r.flat) and (not r.size or any(a.dtype == bool for a in arrays)): r = r.astype(bool)
        return _wrapres(r)
    def atleast_1d(self, a): return _wrapres(np.atleast_1d(_unw(asarr(a))))
    def interp(self, *a, **k):
        raise Unsupported("np.interp") if any(hassym(x) for x in a) else np.interp(*a, **k)
    def arange(self, *a, **k):
        if any(issym(x) for x in a): raise Unsupported("np.arange of symbolic length")
        return np.arange(*a, **k)
    def linspace(self, a, b, num=50, endpoint=True, **k):
        if not (hassym(a) or hassym(b)): return np.linspace(_unw(a), _unw(b), num=num, endpoint=endpoint, **k)
        n = num-1 if endpoint else num
        return asarr([a + (b-a)*sym.fractions.Fraction(i, n) if i else a+0.0 for i in range(num)])
    def allclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        if not (hassym(a) or hassym(b)): return np.allclose(_unw(a), _unw(b), rtol=rtol, atol=atol, **k)
        return self.all(emap(lambda x, y: abs(x-y) <= atol+rtol*abs(y), a, b)) if np.ndim(_unw(a)) or np.ndim(_unw(b)) else bool(abs(a-b) <= atol+rtol*abs(b))
    def iscomplexobj(self, a): return False if hassym(a) else np.iscomplexobj(_unw(a))

def _uf(uf):
    def f(*a, **k):
        if any(hassym(x) for x in a):
            if uf.__name__ in ELEM and not k: return emap(ELEM[uf.__name__], *[x if issym(x) else asarr(x) for x in a])
            return _wrapres(uf(*[_ob(_unw(x)) if issym(x) or isinstance(x, np.ndarray) else _unw(asarr(x)) for x in a], **k))
        if uf.__name__ in ("isfinite","isnan") and isinstance(a[0], SArr) and a[0].rawdtype == object and not k: return np.array([ELEM[uf.__name__](v) for v in np.ndarray.ravel(a[0].view(np.ndarray))], bool).reshape(a[0].shape)
        return _wrapres(uf(*[_unw(x) for x in a], **{kk:v for kk,v in k.items()}))
    for n in ("reduce","accumulate","outer","at"):
        setattr(f, n, getattr(uf, n))
    f.__name__ = uf.__name__
    return f
def _fn(fn):
    def f(*a, **k):
        if fn in FUNCS and any(hassym(x) for x in a): return FUNCS[fn](*a, **k)
        return _wrapres(fn(*_unw(a), **{kk:_unw(v) for kk,v in k.items()}))
    f.__name__ = getattr(fn, "__name__", "np_fn")
    return f
