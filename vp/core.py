"""Contracts, their three uses (proof, replay, bounded run) and bounded checks.

A contract is one function  harness(c)  that
  * introduces the inputs with c.int / c.real / c.bool (bounds are the precondition),
  * states further preconditions with c.assume,
  * calls the real function through c.mod("utils") etc.,
  * states the postconditions with c.check(name, condition).
With a symbolic c this produces proof obligations over the text of /repo; with
a concrete c (class Conc) the same text runs on the imported pixell: that is how
a counterexample is replayed and how the bounded stand-in is run.
"""
import sys, os, random, traceback, importlib, math, fractions, time
import numpy as np
from . import sym, load as L
from .sym import whole, SInt, SReal, SBool, issym, ite, And, Or, Not, Implies, Eq, PI, Unsupported, PathEnd

class stub:
    """replace callees of the clone by their contracts while a caller is verified (no effect in concrete runs)"""
    def __init__(self, c, mod, **fns): self.c, self.mod, self.fns = c, mod, fns
    def __enter__(self):
        if self.c.symbolic:
            self.old = {k: self.mod.__dict__[k] for k in self.fns}
            self.mod.__dict__.update(self.fns)
    def __exit__(self, *a):
        if self.c.symbolic: self.mod.__dict__.update(self.old)

def mulbound(c, e, lo, hi, p):
    """lo<=e<=hi and p>0 give lo*p<=e*p<=hi*p: proved for arbitrary reals, then instantiated"""
    if not c.symbolic: return
    v, q = SReal(c.fresh_real("v")), SReal(c.fresh_real("p"))
    f = lambda v, q: Implies(And(v >= lo, v <= hi, q > 0), And(v*q >= lo*q, v*q <= hi*q))
    if c.run.prove_lemma("scaling keeps bounds", sym.zb(f(v, q))): c.assume(f(e, p))
def ratiobound(c, a, b):
    """0<=a<=b and b>0 give 0<=a/b<=1"""
    if not c.symbolic: return
    v, q = SReal(c.fresh_real("v")), SReal(c.fresh_real("p"))
    f = lambda v, q: Implies(And(v >= 0, v <= q, q > 0), And(SReal(sym.zr(v)/sym.zr(q)) >= 0, SReal(sym.zr(v)/sym.zr(q)) <= 1))
    if c.run.prove_lemma("ratio", sym.zb(f(v, q))): c.assume(f(a, b))

class Skip(Exception): pass
class CheckFailed(Exception): pass

REGISTRY = {}     # property id -> dict(contracts=[], bounded=[])
def _prop(pid): return REGISTRY.setdefault(pid, dict(contracts=[], bounded=[], external=[]))

class Contract:
    def __init__(self, pid, fns, harness, scope, samples, opts, trusted, name=None):
        self.pid, self.fns, self.harness, self.scope, self.samples, self.opts, self.trusted = pid, fns, harness, scope, samples, opts, trusted
        self.name = name or harness.__name__
class BoundedCheck:
    def __init__(self, pid, fns, func, bound, name=None):
        self.pid, self.fns, self.func, self.bound = pid, fns, func, bound
        self.name = name or func.__name__

def contract(pid, fns, scope="all inputs", samples=400, trusted=(), name=None, **opts):
    """scope 'all inputs' = unbounded proof; anything else names what is fixed"""
    def deco(f):
        _prop(pid)["contracts"].append(Contract(pid, [fns] if isinstance(fns,str) else list(fns), f, scope, samples, opts, list(trusted), name))
        return f
    return deco
def bounded(pid, fns, bound, name=None):
    def deco(f):
        _prop(pid)["bounded"].append(BoundedCheck(pid, [fns] if isinstance(fns,str) else list(fns), f, bound, name))
        return f
    return deco
def external(pid, fns, scope, name=None):
    """a check discharged by another verifier (CBMC); func(tier, outdir) -> list of dict(name,status,detail,time,solver)"""
    def deco(f):
        _prop(pid)["external"].append(Contract(pid, [fns] if isinstance(fns,str) else list(fns), f, scope, 0, {}, [], name))
        return f
    return deco

# ------------------------------------------------------------------ symbolic
def sym_mod(self, name): return L.load(name)
def sym_arr(self, v, dtype=None):
    from . import npshim
    return npshim.asarr(v, dtype, copy=True)
sym.Ctx.mod = sym_mod
sym.Ctx.arr = sym_arr
sym.Ctx.symbolic = True
sym.Ctx.np = property(lambda self: L.NPM)
sym.Ctx.pi = PI
def _choose(self, name, options):
    """case split over a finite list of configurations"""
    k = self.int(name, lo=0, hi=len(options)-1)
    for i in range(len(options)-1):
        if k == i: return options[i]
    return options[-1]
sym.Ctx.choose = _choose
def _all(self, name, conds):
    cs = list(conds)
    self.check(name, And(*cs) if cs else True)
sym.Ctx.check_all = _all

# ------------------------------------------------------------------ concrete
class Conc:
    symbolic = False
    pi = math.pi
    np = np
    def __init__(self, vals=None, rng=None):
        self.vals, self.rng = vals, rng
        self.inputs = {}
        self.fails = []
        self.nchecks = 0
    def _get(self, name, gen, lo, hi, ne, conv):
        if self.vals is not None and name in self.vals and self.vals[name] is not None: v = conv(self.vals[name])
        elif self.rng is not None or self.vals is not None:
            for i in range(50):
                v = gen()
                if ne is None or v != ne: break
        self.inputs[name] = v
        if lo is not None and v < lo and not self._near(v, lo): raise Skip()
        if hi is not None and v > hi and not self._near(v, hi): raise Skip()
        if ne is not None and v == ne: raise Skip()
        return v
    def _near(self, a, b): return isinstance(a, float) and abs(a-b) < 1e-12
    def int(self, name, lo=None, hi=None, ne=None, sample=None):
        rng = self.rng or random.Random(0)
        def gen():
            a, b = sample or (lo if lo is not None else -9, hi if hi is not None else (lo+12 if lo is not None else 9))
            if lo is None and hi is not None and sample is None: a = hi-18
            return rng.randint(int(a), int(b))
        return self._get(name, gen, lo, hi, ne, int)
    def real(self, name, lo=None, hi=None, ne=None, sample=None):
        rng = self.rng or random.Random(0)
        def gen():
            a, b = sample or (lo if lo is not None else -4.0, hi if hi is not None else (lo+8 if lo is not None else 4.0))
            if lo is None and hi is not None and sample is None: a = hi-8
            r = rng.random()
            if r < 0.3: return float(min(max(round(rng.uniform(a,b)*2)/2, a), b))
            return rng.uniform(a, b)
        return self._get(name, gen, lo, hi, ne, float)
    def bool(self, name):
        rng = self.rng or random.Random(0)
        return self._get(name, lambda: rng.random() < 0.5, None, None, None, bool)
    def choose(self, name, options):
        return options[self.int(name, lo=0, hi=len(options)-1)]
    def assume(self, *cs):
        for c in cs:
            if not bool(c): raise Skip()
    def check(self, name, cond, **info):
        self.nchecks += 1
        ok = bool(np.all(cond))
        if not ok: self.fails.append(name)
    def check_all(self, name, conds):
        self.check(name, all(bool(x) for x in conds))
    def mod(self, name): return importlib.import_module("pixell."+name)
    def arr(self, v, dtype=None): return np.array(v, dtype=dtype)
    def decide(self, c): return bool(c)
    def step(self, name, cond): self.check(name, cond)
    def lemma(self, name, cond): pass
    def hint(self, *v): pass

def in_repo_frame(tb):
    """did the innermost frame outside numpy/site-packages lie in /repo?"""
    last = None
    for f in traceback.extract_tb(tb):
        fn = f.filename
        if "/site-packages/" in fn or fn.startswith("<") or "/lib/python3" in fn: continue
        last = fn
    return last is not None and (last.startswith(L.REPO) or last.startswith("/repo"))

def harness_mismatch(e):
    """the harness could not drive the code (something it names is gone): no verdict"""
    if isinstance(e, (ImportError, MemoryError)): return True
    if isinstance(e, AttributeError) and "module 'pixell" in str(e): return True
    if isinstance(e, TypeError) and ("unexpected keyword" in str(e) or "positional argument" in str(e)): return True
    return False

def run_concrete(con, vals=None, rng=None):
    """-> (status, detail, inputs): ok / skip / fail / error"""
    c = Conc(vals, rng)
    try:
        con.harness(c)
    except Skip: return "skip", "", c.inputs
    except (PathEnd, Unsupported): return "skip", "", c.inputs
    except Exception as e:
        tb = "".join(traceback.format_exception(e))
        if in_repo_frame(e.__traceback__):
            return "fail", "raises %s: %s\n%s" % (type(e).__name__, e, tb), c.inputs
        if harness_mismatch(e): return "error", tb, c.inputs
        return "fail", "result is not usable as specified: %s: %s\n%s" % (type(e).__name__, e, tb), c.inputs
    if c.fails: return "fail", "postcondition not met: " + ", ".join(dict.fromkeys(c.fails)), c.inputs
    return "ok", str(c.nchecks), c.inputs

# ------------------------------------------------------------------ bounded
class B:
    """Bounded run-time contract check on the imported pixell."""
    def __init__(self, pid, name, seed, tier):
        self.pid, self.name, self.tier = pid, name, tier
        self.seed = seed
        self.rng = random.Random("%s/%s/%d" % (pid, name, seed))
        self.nrng = np.random.default_rng(self.rng.getrandbits(60))
        self.n = 0; self.ncheck = 0; self.fails = []; self.findings = []; self.samples = []
        self.cur = None; self.t0 = time.time()
    def case(self, *desc):
        self.n += 1
        self.cur = desc
        if len(self.samples) < 3 or (self.n % 97 == 0 and len(self.samples) < 6): self.samples.append(repr(desc)[:300])
    def N(self, quick, thorough=None): return quick if self.tier == "quick" else (thorough or quick*10)
    def check(self, name, cond, detail=""):
        self.ncheck += 1
        try: ok = bool(np.all(cond))
        except Exception as e: ok = False; detail = "%s (%s)" % (detail, e)
        if not ok:
            self.fails.append(dict(obligation=name, case=repr(self.cur)[:3000], detail=str(detail)[:2000]))
            if len(self.fails) >= 12: raise CheckFailed()
        return ok
    def eq(self, name, a, b, detail=""):
        """exact equality of arrays incl. shape (nan == nan)"""
        a, b = np.asarray(a), np.asarray(b)
        ok = a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))
        return self.check(name, ok, detail or "got %s want %s" % (brief(a), brief(b)))
    def close(self, name, a, b, rtol=1e-9, atol=1e-9, detail=""):
        a, b = np.asarray(a), np.asarray(b)
        ok = a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
        return self.check(name, ok, detail or "got %s want %s" % (brief(a), brief(b)))
    def finding(self, fid, cond, detail=""):
        """probe of one specific recorded input"""
        self.ncheck += 1
        if not bool(np.all(cond)): self.findings.append(dict(id=fid, detail=str(detail)[:500]))
    def raises(self, name, f, exc=Exception):
        try: f()
        except exc: return self.check(name, True)
        return self.check(name, False, "no exception")

def brief(a):
    s = np.array2string(np.asarray(a), threshold=40, precision=12, separator=",") if isinstance(a, np.ndarray) else repr(a)
    return (str(np.shape(a)) + " " + s)[:600]
