"""Symbolic values and path exploration.

The verifier runs the real functions of /repo (their source is read and
executed on every run) on symbolic arguments.  Integers are mathematical
integers (Python semantics: unbounded, // and % floor), floats are treated as
mathematical reals.  A branch on a symbolic condition forks the path; every
feasible path is explored.  Postconditions are emitted with check(); each one
becomes an SMT query  path-condition /\\ not(postcondition)  that must be unsat.
"""
import time, fractions, numbers, os, math
import z3
import numpy as np

class Unsupported(Exception):
    """The code left the verifier's reach; never a verdict about the code."""
class PathEnd(Exception):
    """Path abandoned (infeasible assumption or a loop cut)."""
class Budget(Unsupported): pass

CUR = None           # current exploration context

def cur():
    if CUR is None: raise Unsupported("symbolic value used outside of a verification run")
    return CUR

def issym(x): return isinstance(x, (SInt, SReal, SBool))

def _frac(x):
    f = fractions.Fraction(x)
    return z3.RealVal(str(f.numerator)) / z3.RealVal(str(f.denominator)) if f.denominator != 1 else z3.RealVal(str(f.numerator))

def z(x):
    """z3 term of a python/numpy/symbolic scalar"""
    if issym(x): return x.e
    if isinstance(x, z3.ExprRef): return x
    if isinstance(x, (bool, np.bool_)): return z3.BoolVal(bool(x))
    if isinstance(x, (int, np.integer)): return z3.IntVal(int(x))
    if isinstance(x, (float, np.floating)):
        if x != x or x in (float("inf"), float("-inf")): raise Unsupported("non-finite constant %r" % (x,))
        return _frac(float(x))
    if isinstance(x, fractions.Fraction): return _frac(x)
    if isinstance(x, np.ndarray) and x.ndim == 0: return z(x[()])
    raise Unsupported("no symbolic form for %s" % type(x).__name__)

def wrap(e):
    if z3.is_bool(e): return SBool(e)
    if z3.is_int(e):  return SInt(e)
    if z3.is_real(e): return SReal(e)
    raise Unsupported("unexpected sort")

def zb(x):
    e = z(x)
    if z3.is_bool(e): return e
    return e != 0
def zr(x):
    e = z(x)
    if z3.is_bool(e): e = z3.If(e, z3.IntVal(1), z3.IntVal(0))
    return z3.ToReal(e) if z3.is_int(e) else e
def zi(x):
    e = z(x)
    if z3.is_bool(e): e = z3.If(e, z3.IntVal(1), z3.IntVal(0))
    if not z3.is_int(e): raise Unsupported("integer expected")
    return e

def _num(x):
    e = z(x)
    if z3.is_bool(e): e = z3.If(e, z3.IntVal(1), z3.IntVal(0))
    return e

def _isnumeric(x):
    return issym(x) or isinstance(x, (bool, np.bool_, int, float, np.number, fractions.Fraction)) or isinstance(x, z3.ArithRef)

def _pair(a, b):
    a, b = _num(a), _num(b)
    if z3.is_int(a) and z3.is_int(b): return a, b, True
    if z3.is_int(a): a = z3.ToReal(a)
    if z3.is_int(b): b = z3.ToReal(b)
    return a, b, False

def floordiv(a, b):
    """python floor division on ints (symbolic)"""
    if z3.is_int_value(b):
        v = b.as_long()
        if v == 0: raise ZeroDivisionError("integer division or modulo by zero")
        if v == 1: return a
        return a / b if v > 0 else (-a) / z3.IntVal(-v)
    # z3's div is euclidean; it agrees with floor for b>0
    return z3.If(b > 0, a / b, (-a) / (-b))

class Sym:
    __array_priority__ = 1000
    def __hash__(self): return hash(self.e)
    def __repr__(self): return "%s(%s)" % (type(self).__name__, str(self.e)[:200])
    # numpy's object loops look for these
    def sin(self):  return ufun("sin", self)
    def cos(self):  return ufun("cos", self)
    def arctan2(self, x): return ufun("arctan2", self, x)
    def arctan(self): return ufun("arctan", self)
    def tan(self):  return ufun("tan", self)
    def arcsin(self): return ufun("arcsin", self)
    def arccos(self): return ufun("arccos", self)
    def sqrt(self):
        e = zr(self); tab = cur().__dict__.setdefault("sqrts", {}); k = z3.simplify(e, som=True).sexpr()
        if k in tab: return SReal(tab[k])
        r = tab[k] = cur().fresh_real("sqrt")
        cur().assume_z(z3.And(r >= 0, r*r == e))
        cur().must(e >= 0, "sqrt of non-negative")
        return SReal(r)
    def conjugate(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    # python numeric protocol
    def __add__(self, o):  return _arith("+", self, o)
    def __radd__(self, o): return _arith("+", o, self)
    def __sub__(self, o):  return _arith("-", self, o)
    def __rsub__(self, o): return _arith("-", o, self)
    def __mul__(self, o):  return _arith("*", self, o)
    def __rmul__(self, o): return _arith("*", o, self)
    def __truediv__(self, o):  return _arith("/", self, o)
    def __rtruediv__(self, o): return _arith("/", o, self)
    def __floordiv__(self, o): return _arith("//", self, o)
    def __rfloordiv__(self, o): return _arith("//", o, self)
    def __mod__(self, o):  return _arith("%", self, o)
    def __rmod__(self, o): return _arith("%", o, self)
    def __divmod__(self, o): return self//o, self%o
    def __rdivmod__(self, o): return o//self, o%self
    def __pow__(self, o):
        if isinstance(o, (int, np.integer)) and 0 <= o <= 8:
            r = 1
            for i in range(int(o)): r = r*self
            return r
        if isinstance(o, float) and o == 0.5: return self.sqrt()
        if isinstance(o, (int,float)) and o == -1: return 1/self
        if isinstance(o, float) and o == -0.5: return 1/self.sqrt()
        raise Unsupported("symbolic power")
    def __neg__(self): return _arith("-", 0, self)
    def __pos__(self): return self
    def __abs__(self):
        e = _num(self)
        f = cur().forced(e >= 0)
        if f is not None: return wrap(e) if f else wrap(-e)
        return wrap(z3.If(e >= 0, e, -e))
    def __lt__(self, o): return _cmp("<", self, o)
    def __le__(self, o): return _cmp("<=", self, o)
    def __gt__(self, o): return _cmp(">", self, o)
    def __ge__(self, o): return _cmp(">=", self, o)
    def __eq__(self, o): return _cmp("==", self, o)
    def __ne__(self, o): return _cmp("!=", self, o)
    def __floor__(self):
        if isinstance(self, SReal): return SInt(zfloor(self.e))
        return self
    def __ceil__(self):
        if isinstance(self, SReal): return SInt(-zfloor(-self.e))
        return self
    def __trunc__(self):
        if isinstance(self, SReal):
            return SInt(z3.If(self.e >= 0, zfloor(self.e), -zfloor(-self.e)))
        return self
    def __round__(self, nd=None):
        if nd not in (None, 0): raise Unsupported("round to decimals")
        return rint(self)
    # numpy's object loops
    def floor(self): return self.__floor__()
    def ceil(self): return self.__ceil__()
    def rint(self): return rint(self)
    def __bool__(self): return cur().decide(zb(self))
    def __int__(self): return cur().concretize(self.__trunc__().e)
    def __index__(self):
        if isinstance(self, SReal): raise TypeError("'float' object cannot be interpreted as an integer")
        return cur().concretize(_num(self))
    def __float__(self):
        import os
        if os.environ.get("VP_TRACE"): import traceback; traceback.print_stack()
        raise Unsupported("symbolic value forced to a machine float")
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    # a few attributes numpy scalars have
    shape = (); ndim = 0
    def astype(self, t, copy=True): return cast(self, t)
    def item(self): return self

class SInt(Sym):
    def __init__(self, e): self.e = e
class SReal(Sym):
    def __init__(self, e): self.e = e
    def is_integer(self): return SBool(z3.IsInt(self.e))
class SBool(Sym):
    def __init__(self, e): self.e = e
    def __and__(self, o): return _logic("and", self, o)
    __rand__ = __and__
    def __or__(self, o): return _logic("or", self, o)
    __ror__ = __or__
    def __xor__(self, o): return _logic("xor", self, o)
    __rxor__ = __xor__
    def __invert__(self): return SBool(z3.Not(self.e))

def _logic(op, a, b):
    if isinstance(b, np.ndarray): return NotImplemented
    if not (isinstance(b, (SBool, bool, np.bool_))): raise Unsupported("mixed logic op")
    a, b = zb(a), zb(b)
    if op == "and": return SBool(z3.And(a,b))
    if op == "or":  return SBool(z3.Or(a,b))
    return SBool(z3.Xor(a,b))

def rint(x):
    """round half to even"""
    if isinstance(x, SInt): return x
    M, e = ratnorm(z3.simplify(zr(x)), z3.RealVal(1))
    return SInt(_rint(e, M))
def _rint(e, M):
    f = z3.ToInt(e)
    d = e - z3.ToReal(f)
    half = z3.RealVal("1/2"); g = f if M is None else M+f
    return z3.If(d < half, g, z3.If(d > half, g+1, z3.If(g % 2 == 0, g, g+1)))
def zfloor(e):
    M, r = ratnorm(z3.simplify(e), z3.RealVal(1))
    return z3.ToInt(r) if M is None else M + z3.ToInt(r)

def cast(x, t):
    """value cast for astype/int()/float() on a scalar"""
    try: k = np.dtype(t).kind
    except TypeError: k = "O"
    if k in "iu":
        if isinstance(x, (SInt,)): return x
        if isinstance(x, SBool): return SInt(_num(x))
        if isinstance(x, SReal): return x.__trunc__()
        return int(x)
    if k == "f":
        if isinstance(x, SReal): return x
        if isinstance(x, (SInt, SBool)): return SReal(zr(x))
        return float(x)
    if k == "b":
        return SBool(zb(x)) if issym(x) else bool(x)
    if k == "c":
        raise Unsupported("complex cast")
    return x

def _arith(op, a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        f = {"+":np.add,"-":np.subtract,"*":np.multiply,"/":np.true_divide,"//":np.floor_divide,"%":np.remainder}[op]
        def ob(v):
            if isinstance(v, np.ndarray): return v
            r = np.empty((), object); r[()] = v; return r
        return f(ob(a), ob(b))
    if not (_isnumeric(a) and _isnumeric(b)): return NotImplemented
    # cheap constant folding, keeps the terms readable and linear
    if not issym(b):
        if op in "+-" and b == 0 and not isinstance(b, (float, np.floating)): return a if not isinstance(a, SBool) else SInt(_num(a))
        if op in ("*","//") and b == 1 and not isinstance(b, (float, np.floating)) and not isinstance(a, SBool) and (op=="*" or isinstance(a, SInt)): return a
    if not issym(a) and isinstance(b, (SInt,SReal)) and not isinstance(a, (float, np.floating)):
        if op == "+" and a == 0: return b
        if op == "*" and a == 1: return b
    x, y, isint = _pair(a, b)
    if op == "+": return wrap(z3.simplify(x+y) if z3.is_int_value(y) and z3.is_int_value(x) else x+y)
    if op == "-": return wrap(x-y)
    if op == "*":
        if isint and CUR is not None:
            # (x//y)*y is x - x%y
            for q, d, v in CUR.prods:
                if (q.eq(x) and d.eq(y)) or (q.eq(y) and d.eq(x)): return SInt(v)
        return wrap(x*y)
    if op == "/":
        if isint: x, y = z3.ToReal(x), z3.ToReal(y)
        if z3.is_app_of(y, z3.Z3_OP_TO_REAL) or CUR is None: y = z3.simplify(y)
        if CUR is None and (y.eq(PI.e) or "pi" in str(y)): return SReal(z3.simplify(x/y))     # module constants such as 1/degree
        if not (z3.is_rational_value(y) and y.numerator_as_long() != 0): cur().must(y != 0, "division by non-zero")
        return SReal(x/y)
    if op in ("//","%"):
        cur().must(y != 0, "division by non-zero")
        if isint:
            c = cur()
            if not z3.is_int_value(y):
                # a symbolic divisor: define the quotient by its characteristic
                # property, which the solvers handle better than div/mod terms
                q, r = c.quot(x, y)
                return SInt(q if op == "//" else r)
            q = floordiv(x, y)
            return SInt(q if op == "//" else x - y*q)
        q, r = cur().rquot(x, y)
        return SReal(z3.ToReal(q)) if op == "//" else SReal(r)
    raise Unsupported(op)

def _cmp(op, a, b):
    if isinstance(b, np.ndarray):
        r = np.empty((), object); r[()] = a
        return {"<":np.less,"<=":np.less_equal,">":np.greater,">=":np.greater_equal,"==":np.equal,"!=":np.not_equal}[op](r, b)
    if not _isnumeric(b):
        if op == "==": return False
        if op == "!=": return True
        return NotImplemented
    if isinstance(b, (float, np.floating)) and b in (float("inf"), float("-inf")):
        pos = b > 0
        return {"<":pos,"<=":pos,">":not pos,">=":not pos,"==":False,"!=":True}[op]
    x, y, _ = _pair(a, b)
    e = {"<":x<y,"<=":x<=y,">":x>y,">=":x>=y,"==":x==y,"!=":x!=y}[op]
    return SBool(e)

def ite(c, a, b):
    if not issym(c): return a if c else b
    if not issym(a) and not issym(b) and isinstance(a, (bool,np.bool_)) and isinstance(b, (bool,np.bool_)):
        return SBool(z3.If(c.e, z3.BoolVal(bool(a)), z3.BoolVal(bool(b))))
    if isinstance(a, SBool) and isinstance(b, (SBool,bool)): return SBool(z3.If(zb(c), zb(a), zb(b)))
    x, y, _ = _pair(a, b)
    return wrap(z3.If(zb(c), x, y))

def And(*a):
    if not any(issym(x) for x in a): return all(bool(x) for x in a)
    return SBool(z3.And(*[zb(x) for x in a]))
def Or(*a):
    if not any(issym(x) for x in a): return any(bool(x) for x in a)
    return SBool(z3.Or(*[zb(x) for x in a]))
def Not(a):
    if not issym(a): return not a
    return SBool(z3.Not(zb(a)))
def Implies(a, b):
    if not issym(a) and not issym(b): return (not a) or bool(b)
    return SBool(z3.Implies(zb(a), zb(b)))
TOL = 1e-7
def Eq(a, b):
    """equality; on machine floats up to rounding (relative TOL)"""
    if not issym(a) and not issym(b):
        if isinstance(a, np.ndarray): a = a[()]
        if isinstance(b, np.ndarray): b = b[()]
        if isinstance(a, (int,np.integer,bool,np.bool_)) and isinstance(b, (int,np.integer,bool,np.bool_)): return int(a) == int(b)
        a, b = complex(a), complex(b)
        if a != a or b != b: return a != a and b != b
        return a == b or abs(a-b) <= TOL*max(1.0, abs(a), abs(b))
    x, y, _ = _pair(a, b); return SBool(x == y)

_R = z3.RealSort()
UF = {}
def ufun(name, *args):
    """Uninterpreted real function with the few axioms the proofs need."""
    c = cur()
    key = (name, len(args))
    if key not in UF: UF[key] = z3.Function(name, *([_R]*(len(args)+1)))
    a = [zr(x) for x in args]
    sg = 1
    if name in ("sin","cos","arctan2","arctan","arcsin"):
        # sin(-x)=-sin(x), cos(-x)=cos(x), arctan2(-y,x)=-arctan2(y,x), ...: one sign of the argument is kept
        p, n = z3.simplify(a[0]), z3.simplify(-a[0])
        if z3.is_rational_value(p) and p.as_fraction() == 0 and name in ("sin","cos"): return SReal(z3.RealVal(0 if name == "sin" else 1))
        if name != "arctan2" or not z3.is_rational_value(p):
            sp, sn = p.sexpr(), n.sexpr()
            if (len(sn), sn) < (len(sp), sp):
                a[0] = n
                if name != "cos": sg = -1
                c.run.trusted.add("sin, arctan, arcsin odd, cos even, arctan2 odd in its first argument")
            else: a[0] = p
    t = UF[key](*a)
    c.uf_axioms(name, a, t)
    return SReal(t) if sg == 1 else SReal(-t)

def addz(a, b): return b if a is None else a+b
def _poly(e, depth=0):
    """{sorted tuple of atoms: coefficient} or None"""
    if z3.is_int_value(e): return {(): e.as_long()} if e.as_long() else {}
    k = e.decl().kind() if z3.is_app(e) else None
    if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
        r = {}
        for i, ch in enumerate(e.children()):
            for m, v in _poly(ch).items():
                r[m] = r.get(m,0) + (-v if (k == z3.Z3_OP_SUB and i) else v)
        return {m:v for m,v in r.items() if v}
    if k == z3.Z3_OP_UMINUS: return {m:-v for m,v in _poly(e.arg(0)).items()}
    if k == z3.Z3_OP_MUL:
        r = {():1}
        for ch in e.children():
            p = _poly(ch); n = {}
            for m,v in r.items():
                for m2,v2 in p.items():
                    mm = tuple(sorted(m+m2)); n[mm] = n.get(mm,0)+v*v2
            r = {m:v for m,v in n.items() if v}
            if len(r) > 200: raise Unsupported("polynomial too large")
        return r
    _ATOMS[e.get_id()] = e
    return {(e.get_id(),): 1}
_ATOMS = {}
def _unpoly(p):
    r = None
    for m, v in sorted(p.items()):
        t = None
        for a in m: t = _ATOMS[a] if t is None else t*_ATOMS[a]
        t = z3.IntVal(v) if t is None else (t if v == 1 else v*t)
        r = t if r is None else r+t
    return z3.IntVal(0) if r is None else r
def split_multiple(x, y):
    """x = M*y + rest with M collecting the monomials of x that contain y"""
    try: py = _poly(y); px = _poly(x)
    except Unsupported: return None, x
    if len(py) == 1:
        (my, cy), = py.items()
        if my != () and cy in (1,-1):
            M, R = {}, {}
            for m, v in px.items():
                rest = list(m)
                try:
                    for a in my: rest.remove(a)
                    M[tuple(rest)] = v*cy
                except ValueError: R[m] = v
            if M: return _unpoly(M), _unpoly(R)
    elif len(py) > 1:
        # x an integer multiple of y plus a constant?
        k0 = next(m for m in sorted(py) if m != ())
        if k0 in px and px[k0] % py[k0] == 0:
            f = px[k0]//py[k0]
            R = dict(px)
            for m, v in py.items(): R[m] = R.get(m,0)-f*v
            R = {m:v for m,v in R.items() if v}
            if all(m == () for m in R) : return z3.IntVal(f), _unpoly(R)
    return None, x

class Obligation:
    __slots__ = ("name","status","model","time","solver","path","detail")
    def __init__(self, name): self.name=name; self.status=None; self.model=None; self.time=0; self.solver=None; self.path=None; self.detail=""

class Ctx:
    """One path of one harness."""
    def __init__(self, run, prefix):
        self.run, self.prefix = run, prefix
        self.decisions = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", run.feas_timeout)
        self.nfresh = 0
        self.inputs = {}
        self.ufs = set()
        self.quots = {}
        self.prods = []
        self.rquots = []
        self.hints = []
        self.obligs = 0
    # --- symbols ---
    def int(self, name, **kw):
        v = z3.Int(name); self.inputs[name] = v
        r = SInt(v); self._bounds(r, **kw); return r
    def real(self, name, **kw):
        v = z3.Real(name); self.inputs[name] = v
        r = SReal(v); self._bounds(r, **kw); return r
    def bool(self, name):
        v = z3.Bool(name); self.inputs[name] = v
        return SBool(v)
    def _bounds(self, r, lo=None, hi=None, ne=None, sample=None):
        if lo is not None: self.assume(r >= lo)
        if hi is not None: self.assume(r <= hi)
        if ne is not None: self.assume(r != ne)
    def fresh_real(self, n="r"):
        self.nfresh += 1; return z3.Real("%s!%d" % (n, self.nfresh))
    def fresh_int(self, n="i"):
        self.nfresh += 1; return z3.Int("%s!%d" % (n, self.nfresh))
    def forced(self, e):
        """True/False if the path condition decides e, else None"""
        e = z3.simplify(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        key = e.get_id(), len(self.pc)
        if not self.feasible(z3.Not(e)): return True
        if not self.feasible(e): return False
        return None
    def quot(self, x, y):
        """floor quotient and remainder of integer terms.  Multiples of y in x are
        taken out first: floor((M*y+rest)/y) = M + floor(rest/y)."""
        x, y = z3.simplify(x), z3.simplify(y)
        M, x = split_multiple(x, y)
        for (kx,ky,q,r) in self.quots.values():
            if kx.eq(x) and ky.eq(y):
                self.prods.append((addz(M,q), y, x-r if M is None else M*y+x-r))
                return addz(M,q), r
        if z3.is_int_value(x) and x.as_long() == 0: return (M if M is not None else z3.IntVal(0)), z3.IntVal(0)
        q, r = self.fresh_int("q"), self.fresh_int("r")
        self.assume_z(z3.And(x == q*y + r, z3.If(y > 0, z3.And(r >= 0, r < y), z3.And(r <= 0, r > y))))
        for h in self.hints:
            # (q-h)*y for integers q != h, y > 0: valid facts about products
            self.assume_z(z3.Implies(y > 0, z3.And(z3.Implies(q < h, q*y <= h*y-y), z3.Implies(q > h, q*y >= h*y+y))))
        # lemma instances (linear consequences of the definition that the nonlinear solvers miss)
        self.assume_z(z3.Implies(z3.And(y > 0, x >= 0), q >= 0)); self.assume_z(z3.Implies(z3.And(y > 0, x < 0), q < 0))
        self.assume_z(z3.Implies(y > 0, z3.And(z3.Implies(z3.And(x >= 0, x < y), q == 0), z3.Implies(z3.And(x >= -y, x < 0), q == -1), z3.Implies(z3.And(x >= y, x < 2*y), q == 1))))
        for (kx,ky,q2,r2) in self.quots.values():
            if ky.eq(y):
                d = q-q2
                for k in range(-2,3): self.assume_z(z3.Implies(d == k, x-kx == k*y + r-r2))
                self.assume_z(z3.Implies(y > 0, z3.And(z3.Implies(d > 2, x-kx > 2*y), z3.Implies(d < -2, x-kx < -2*y))))
        self.quots[len(self.quots)] = (x, y, q, r)
        self.prods.append((addz(M,q), y, x-r if M is None else M*y+x-r))
        return addz(M,q), r
    def rquot(self, x, y):
        """floor quotient (int) and remainder (real) of real terms; whole multiples of y
        visible in x are taken out exactly first"""
        M, rest = ratnorm(z3.simplify(x), z3.simplify(y))
        for (kx,ky,q,r) in self.rquots:
            if kx.eq(rest) and ky.eq(y): return addz(M,q), r
        q = self.fresh_int("rq"); qr = z3.ToReal(q)
        r = ratnorm(z3.simplify(rest - qr*y))
        self.assume_z(z3.If(y > 0, z3.And(r >= 0, r < y), z3.And(r <= 0, r > y)))
        for h in self.hints:
            hr = z3.ToReal(h)
            self.assume_z(z3.Implies(y > 0, z3.And(z3.Implies(q < h, qr*y <= hr*y-y), z3.Implies(q > h, qr*y >= hr*y+y))))
        yp = y > 0
        self.assume_z(z3.Implies(z3.And(yp, rest >= 0), q >= 0)); self.assume_z(z3.Implies(z3.And(yp, rest < 0), q < 0))
        for k in range(-2,3): self.assume_z(z3.Implies(yp, (q == k) == z3.And(rest >= k*y, rest < (k+1)*y)))
        for (kx,ky,q2,r2) in self.rquots:
            if ky.eq(y):
                for k in range(-2,3): self.assume_z(z3.Implies(q-q2 == k, rest-kx == k*y + r-r2))
                self.assume_z(z3.Implies(yp, z3.And(z3.Implies(q-q2 > 2, rest-kx > 2*y), z3.Implies(q-q2 < -2, rest-kx < -2*y))))
        self.rquots.append((rest, y, q, r))
        return addz(M,q), r
    def hint(self, *vals):
        """expected quotients: product facts about them are instantiated"""
        self.hints += [zi(v) for v in vals]
    def lemma(self, name, cond):
        """a fact valid on its own: proved without the path condition, then used"""
        o = self.run.prove_lemma(name, zb(cond))
        if o: self.assume_z(zb(cond))
    def step(self, name, cond):
        """an obligation on this path that, once discharged, later obligations may use"""
        self.obligs += 1
        o = self.run.prove(self, name, cond, {})
        if o.status == "discharged" and issym(cond): self.assume_z(zb(cond))
    # --- logic ---
    def assume_z(self, e):
        self.pc.append(e); self.solver.add(e)
    def assume(self, *cs):
        for c in cs: self.assume_z(zb(c))
    def feasible(self, e=None):
        t = time.time()
        r = self.solver.check(*([e] if e is not None else []))
        self.run.solver_time += time.time()-t
        return r != z3.unsat
    def decide(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):  return True
        if z3.is_false(e): return False
        n = len(self.decisions)
        if n < len(self.prefix):
            d = self.prefix[n]
        else:
            if n > self.run.max_depth: raise Budget("path longer than %d decisions" % self.run.max_depth)
            t = self.feasible(e)
            f = self.feasible(z3.Not(e)) if t else True
            if t and f:
                self.run.push(self.decisions + [False]); d = True
            else: d = t
        self.decisions.append(d)
        self.assume_z(e if d else z3.Not(e))
        return d
    def concretize(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e): return e.as_long()
        # value forced by the path condition?
        if self.solver.check() != z3.sat: raise Unsupported("cannot concretize")
        v = self.solver.model().eval(e, model_completion=True)
        if not self.feasible(e != v): return v.as_long()
        lim = self.run.enum_limit
        if lim:
            # enumerate (complete when the path condition bounds the value)
            for k in range(lim):
                if self.decide(e == v): return v.as_long()
                if self.solver.check() != z3.sat: raise PathEnd()
                v = self.solver.model().eval(e, model_completion=True)
            raise Budget("more than %d values for a concrete index" % lim)
        import os
        if os.environ.get("VP_TRACE"): import traceback; traceback.print_stack()
        raise Unsupported("symbolic value used where a concrete integer is needed: %s" % str(e)[:80])
    def must(self, e, what):
        """a safety condition of the executed code (e.g. no division by zero)"""
        e = z3.simplify(e)
        if z3.is_true(e): return
        if self.run.implicit_safety: self.check("safe:"+what, SBool(e))
        self.assume_z(e)
    def check(self, name, cond, **info):
        """an obligation"""
        self.obligs += 1
        self.run.prove(self, name, cond, info)
    def uf_axioms(self, name, a, t):
        key = (name,)+tuple(x.get_id() for x in a)
        if key in self.ufs: return
        self.ufs.add(key); self.run.keep.append((a,t))
        pi = PI.e
        if name in ("sin","cos"):
            s, c = [UF.setdefault((n,1), z3.Function(n,_R,_R))(a[0]) for n in ("sin","cos")]
            self.ufs.add(("sin",a[0].get_id())); self.ufs.add(("cos",a[0].get_id()))
            self.assume_z(z3.And(s*s+c*c == 1, s <= 1, s >= -1, c <= 1, c >= -1))
            self.run.trusted.add("sin^2+cos^2=1 for real sin, cos")
        elif name == "sqrt":
            self.assume_z(z3.And(t >= 0, t*t == a[0]))

PI = SReal(z3.Real("pi"))
PI_BOUNDS = z3.And(PI.e > z3.RealVal("3.141592653589793"), PI.e < z3.RealVal("3.141592653589794"))

class Run:
    """Exploration of one harness: all feasible paths, all obligations."""
    def __init__(self, name, tier="quick", timeout=None, max_paths=4000, max_depth=400, enum_limit=0, implicit_safety=False, wall=None):
        self.name = name
        self.feas_timeout = 2000
        self.timeout = timeout or (20000 if tier == "quick" else 120000)
        self.max_paths, self.max_depth, self.enum_limit = max_paths, max_depth, enum_limit
        self.implicit_safety = implicit_safety
        self.stack = [[]]
        self.solver_time = 0.0
        self.obligs = []
        self.npaths = 0
        self.trusted = set()
        self.keep = []
        self.wall = wall or (150 if tier == "quick" else 1500)
        self.t0 = time.time()
        self.unsupported = []
        self.refuted = []
    def push(self, prefix): self.stack.append(prefix)
    def explore(self, harness):
        global CUR
        while self.stack:
            if self.npaths >= self.max_paths: self.unsupported.append("more than %d paths" % self.max_paths); break
            if time.time()-self.t0 > self.wall: self.unsupported.append("time budget of %gs used up" % self.wall); break
            if len(self.refuted) >= 6: break
            prefix = self.stack.pop()
            ctx = Ctx(self, prefix); CUR = ctx
            self.npaths += 1
            try:
                ctx.assume_z(PI_BOUNDS)
                harness(ctx)
            except PathEnd: pass
            except Unsupported as e:
                self.unsupported.append("%s: %s" % (type(e).__name__, e))
                if len(self.unsupported) > 20: break
            finally: CUR = None
        return self
    def prove_lemma(self, name, e):
        o = Obligation("lemma:"+name); t = time.time()
        o.status, o.solver, model = solve([], z3.Not(e), self.timeout)
        if o.status == "refuted": o.status = "unknown"     # a wrong lemma is no verdict about the code
        o.time = time.time()-t; self.solver_time += o.time
        self.obligs.append(o)
        return o.status == "discharged"
    def prove(self, ctx, name, cond, info):
        o = Obligation(name); t = time.time()
        if not issym(cond):
            cond_e = z3.BoolVal(bool(cond))
        else: cond_e = zb(cond)
        neg = z3.simplify(z3.Not(cond_e))
        if z3.is_false(neg): o.status, o.solver = "discharged", "simplify"
        else:
            o.status, o.solver, model = solve(ctx.pc, neg, self.timeout)
            if o.status == "refuted":
                o.model = {k: val(model, v) for k, v in ctx.inputs.items()} if model is not None else {}
                o.path = len(ctx.decisions)
        o.time = time.time()-t
        self.solver_time += o.time
        self.obligs.append(o)
        if o.status == "refuted": self.refuted.append(o)
        # continue under the postcondition's assumption so that one defect is reported once
        return o

def val(model, v):
    r = model.eval(v, model_completion=True)
    if z3.is_int_value(r): return r.as_long()
    if z3.is_rational_value(r): return fractions.Fraction(r.numerator_as_long(), r.denominator_as_long())
    if z3.is_true(r): return True
    if z3.is_false(r): return False
    if z3.is_algebraic_value(r):
        a = r.approx(20); return fractions.Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None

def _int_vars(es):
    seen, out, stack = set(), {}, list(es)
    hasdiv = False
    while stack:
        e = stack.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        k = e.decl().kind() if z3.is_app(e) else None
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_TO_INT, z3.Z3_OP_IS_INT): hasdiv = True
        if z3.is_const(e) and k == z3.Z3_OP_UNINTERPRETED and z3.is_int(e): out[e.get_id()] = e
        stack.extend(e.children())
    return list(out.values()), hasdiv

def relax(es):
    """Integers replaced by reals: unsat over the reals implies unsat over the
    integers.  Only for formulas without div/mod/floor."""
    iv, hasdiv = _int_vars(es)
    if hasdiv: return None
    memo = {}
    def tr(e):
        k = e.get_id()
        if k in memo: return memo[k]
        if z3.is_int_value(e): r = z3.RealVal(e.as_long())
        elif z3.is_const(e) and z3.is_int(e) : r = z3.Real("R_"+str(e))
        elif z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL: r = tr(e.arg(0))
        elif e.num_args() == 0: r = e
        else:
            ch = [tr(c) for c in e.children()]
            kd = e.decl().kind()
            if   kd == z3.Z3_OP_ADD: r = z3.Sum(*ch) if len(ch) > 1 else ch[0]
            elif kd == z3.Z3_OP_MUL:
                r = ch[0]
                for c in ch[1:]: r = r*c
            elif kd == z3.Z3_OP_SUB:
                r = ch[0]
                for c in ch[1:]: r = r-c
            elif kd == z3.Z3_OP_UMINUS: r = -ch[0]
            elif kd == z3.Z3_OP_LE: r = ch[0] <= ch[1]
            elif kd == z3.Z3_OP_LT: r = ch[0] <  ch[1]
            elif kd == z3.Z3_OP_GE: r = ch[0] >= ch[1]
            elif kd == z3.Z3_OP_GT: r = ch[0] >  ch[1]
            elif kd == z3.Z3_OP_EQ: r = ch[0] == ch[1]
            elif kd == z3.Z3_OP_DISTINCT: r = z3.Distinct(*ch)
            elif kd == z3.Z3_OP_ITE: r = z3.If(*ch)
            elif kd == z3.Z3_OP_AND: r = z3.And(*ch)
            elif kd == z3.Z3_OP_OR:  r = z3.Or(*ch)
            elif kd == z3.Z3_OP_NOT: r = z3.Not(ch[0])
            elif kd == z3.Z3_OP_IMPLIES: r = z3.Implies(*ch)
            elif kd == z3.Z3_OP_XOR: r = z3.Xor(*ch)
            elif kd == z3.Z3_OP_DIV: r = ch[0]/ch[1]
            else: r = e.decl()(*ch)
        memo[k] = r
        return r
    try: return [tr(e) for e in es]
    except z3.Z3Exception: return None

def _mmul(a, b):
    """product of two monomials ((atom,exponent),...)"""
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k,0)+v
        if d[k] == 0: del d[k]
    return tuple(sorted(d.items()))

class Polys:
    """Rational normal form of arithmetic terms: sums of monomials in atoms, with
    negative exponents for division by a monomial.  a*a^-1 cancels: every divisor is
    known to be non-zero on the path (the division is only built after that check)."""
    def __init__(self, atomtr=lambda e: e):
        self.atoms, self.keep, self.atomtr, self.pmemo = {}, [], atomtr, {}
    def atom(self, t):
        t = self.atomtr(t); self.keep.append(t); self.atoms[t.get_id()] = t
        return {((t.get_id(),1),):1}
    def poly(self, e):
        k = e.get_id()
        if k not in self.pmemo: self.keep.append(e); self.pmemo[k] = self._poly(e)
        return self.pmemo[k]
    def _poly(self, e):
        if z3.is_int_value(e): v = e.as_long(); return {():v} if v else {}
        if z3.is_rational_value(e):
            v = fractions.Fraction(e.numerator_as_long(), e.denominator_as_long()); return {():v} if v else {}
        k = e.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            r = {}
            for i, ch in enumerate(e.children()):
                for m, v in self.poly(ch).items(): r[m] = r.get(m,0) + (-v if (k == z3.Z3_OP_SUB and i) else v)
            return {m:v for m,v in r.items() if v}
        if k == z3.Z3_OP_UMINUS: return {m:-v for m,v in self.poly(e.arg(0)).items()}
        if k == z3.Z3_OP_MUL:
            r = {():1}
            for ch in e.children():
                p = self.poly(ch); n = {}
                for m,v in r.items():
                    for m2,v2 in p.items():
                        mm = _mmul(m, m2); n[mm] = n.get(mm,0)+v*v2
                r = {m:v for m,v in n.items() if v}
                if len(r) > 300: raise Unsupported("big")
            return r
        if k == z3.Z3_OP_DIV:
            d = self.poly(e.arg(1))
            if len(d) == 1:
                (dm, dv), = d.items(); inv = tuple((a,-x) for a,x in dm)
                return {_mmul(m, inv): fractions.Fraction(v)/dv for m,v in self.poly(e.arg(0)).items()}
            # division by a sum: numerator times the reciprocal of the sum as an atom
            t = 1/z3.RealVal(1)*self.build(d, False) if False else None
        if k == z3.Z3_OP_TO_REAL:
            r = {}
            for m, v in self.poly(e.arg(0)).items():
                mm = {}
                for a, x in m:
                    t = z3.ToReal(self.atoms[a]); self.keep.append(t); self.atoms[t.get_id()] = t; mm[t.get_id()] = x
                r[tuple(sorted(mm.items()))] = v
            return r
        return self.atom(e)

def linearize(es):
    """Products (and quotients) of variables replaced by fresh variables, one per
    monomial after normalisation: unsat of the result implies unsat of the original."""
    memo, mono, keep = {}, {}, []
    P = Polys(lambda e: tr(e, True))
    def build(p, isint):
        r = None
        for m, v in sorted(p.items()):
            if m == (): t = None
            elif len(m) == 1 and m[0][1] == 1: t = P.atoms[m[0][0]]
            else:
                if (m,isint) not in mono: mono[(m,isint)] = (z3.Int if isint else z3.Real)("mono!%d" % len(mono))
                t = mono[(m,isint)]
            c = z3.IntVal(v) if isint else _frac(v)
            t = c if t is None else (t if v == 1 else c*t)
            r = t if r is None else r+t
        return (z3.IntVal(0) if isint else z3.RealVal(0)) if r is None else r
    def tr(e, atomic=False):
        key = (e.get_id(), atomic)
        if key in memo: return memo[key]
        if z3.is_arith(e) and not atomic: r = build(P.poly(e), z3.is_int(e))
        elif e.num_args() == 0: r = e
        else:
            ch = [tr(c) for c in e.children()]
            kd = e.decl().kind()
            if kd == z3.Z3_OP_AND: r = z3.And(*ch)
            elif kd == z3.Z3_OP_OR: r = z3.Or(*ch)
            elif kd == z3.Z3_OP_DISTINCT: r = z3.Distinct(*ch)
            else: r = e.decl()(*ch)
        memo[key] = r; keep.append(e)
        return r
    try: return [tr(e) for e in es]
    except (z3.Z3Exception, Unsupported): return None

def whole(x):
    """x is an integer"""
    if not issym(x): return abs(x-round(x)) < 1e-7
    M, rest = ratnorm(z3.simplify(zr(x)), z3.RealVal(1))
    rest = z3.simplify(rest)
    return True if (z3.is_rational_value(rest) and rest.denominator_as_long() == 1) else SBool(z3.IsInt(rest))

def ratnorm(e, split_by=None):
    """normal form of a real term; with split_by=y: (integer part M, rest) of e/y, e = M*y+rest"""
    P = Polys()
    def build(p):
        r = None
        for m, v in sorted(p.items()):
            t = None; den = None
            for a, x in m:
                for _ in range(abs(x)):
                    if x > 0: t = P.atoms[a] if t is None else t*P.atoms[a]
                    else: den = P.atoms[a] if den is None else den*P.atoms[a]
            c = _frac(v)
            t = c if t is None else (t if v == 1 else c*t)
            if den is not None: t = t/den
            r = t if r is None else r+t
        return z3.RealVal(0) if r is None else r
    try:
        p = P.poly(e)
        if split_by is None: return build(p)
        d = P.poly(split_by)
        if len(d) != 1: return None, e
        (dm, dv), = d.items(); inv = tuple((a,-x) for a,x in dm)
        M = None; rest = {}
        for m, v in p.items():
            q = _mmul(m, inv); w = fractions.Fraction(v)/dv
            isint = all(x > 0 and z3.is_app(P.atoms[a]) and P.atoms[a].decl().kind() == z3.Z3_OP_TO_REAL for a,x in q)
            if isint:
                f = math.floor(w) if q == () else (w if w.denominator == 1 else None)
                if f:
                    t = z3.IntVal(int(f))
                    for a, x in q:
                        for _ in range(x): t = t*P.atoms[a].arg(0)
                    M = t if M is None else M+t
                    v = v - f*dv
            if v: rest[m] = v
        return M, build(rest)
    except (z3.Z3Exception, Unsupported): return (None, e) if split_by is not None else e

def solve(pc, neg, timeout):
    """Portfolio: z3 on the formula, its real relaxation, cvc5 on the SMT-LIB text."""
    unknown = None
    attempts = [("z3-lin", 0.1), ("z3", 0.25), ("z3-real", 0.25), ("cvc5", 0.25), ("z3-nl", 0.5)]
    fs = list(pc) + [neg]
    for name, frac in attempts:
        to = max(500, int(timeout*frac))
        if name == "z3":
            s = z3.Solver(); s.set("timeout", to); s.add(*fs)
        elif name == "z3-lin":
            lin = linearize(fs)
            if lin is None: continue
            s = z3.Solver(); s.set("timeout", to); s.add(*lin)
        elif name == "z3-real":
            rel = relax(fs)
            if rel is None: continue
            s = z3.Then("simplify","solve-eqs","smt").solver() if False else z3.Solver()
            s.set("timeout", to); s.add(*rel)
        elif name == "z3-nl":
            s = z3.Tactic("qfnra-nlsat").solver() if not _int_vars(fs)[0] else z3.Solver()
            try: s.set("timeout", to)
            except z3.Z3Exception: pass
            s.add(*fs)
            try: s.set("arith.solver", 6); s.set("random_seed", 7)
            except z3.Z3Exception: pass
        elif name == "cvc5":
            r = cvc5_check(fs, to)
            if r == "unsat": return "discharged", "cvc5", None
            continue
        try: r = s.check()
        except z3.Z3Exception: continue
        if r == z3.unsat: return "discharged", name, None
        if r == z3.sat and name not in ("z3-real","z3-lin"):
            return "refuted", name, s.model()
    return "unknown", None, None

def cvc5_check(fs, timeout):
    import subprocess
    s = z3.Solver(); s.add(*fs)
    txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)","")
    try:
        p = subprocess.run(["cvc5","--lang=smt2","--nl-ext-tplanes","--tlimit=%d" % timeout], input=txt, capture_output=True, text=True, timeout=timeout/1000+5)
    except (OSError, subprocess.TimeoutExpired): return "unknown"
    out = p.stdout.strip().split("\n")[0] if p.stdout.strip() else "unknown"
    return out if out in ("sat","unsat") else "unknown"
