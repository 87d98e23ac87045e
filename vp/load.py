"""Mechanical extraction of the verified text.

Every run reads the module source from /repo/pixell, parses it, applies the
translation below and executes the result.  Nothing is dropped; the only
changes are
  * the builtins int, float, len, isinstance, min, max, range, round, sorted, sum,
    abs called as functions go to symbolic-aware versions (same meaning on ordinary values)
  * the global name np is bound to npshim.NP
  * sibling modules (utils, wcsutils, ...) are the clones loaded the same way
  * a while/for loop that has a loop contract is replaced by the usual
    entry-check / havoc / one-iteration / preservation-check schema
"""
import ast, sys, types, os, builtins, importlib
import numpy as np
from . import sym, npshim
from .sym import SInt, SReal, SBool, issym, Unsupported, PathEnd, ite

REPO = os.environ.get("VP_REPO", "/repo")
PKG  = os.path.join(REPO, "pixell")

def v_int(x=0, *a):
    if a: return int(x, *a)
    if isinstance(x, np.ndarray) and x.ndim == 0: x = x[()]
    if isinstance(x, (SReal, SInt, SBool)): return sym.cast(x, int)
    return int(x)
def v_float(x=0.0):
    if isinstance(x, np.ndarray) and x.ndim == 0: x = x[()]
    if issym(x): return sym.cast(x, float)
    return float(x)
def v_len(x):
    if hasattr(x, "__slen__"): return x.__slen__()
    return len(x)
def v_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, SInt):  return any(c in (int, np.integer, object) or c is np.int64 for c in ts)
    if isinstance(x, SReal): return any(c in (float, np.floating, object) for c in ts)
    if isinstance(x, SBool): return any(c in (bool, int, object) for c in ts)
    return isinstance(x, t)
def _mm(name, f2, py):
    def f(*a, **k):
        if not k and len(a) >= 2 and any(issym(x) for x in a) and all(np.ndim(x)==0 for x in a if not issym(x)):
            r = a[0]
            for x in a[1:]: r = f2(r, x)
            return r
        if not k and len(a) == 1:
            l = list(a[0])
            if any(issym(x) for x in l) and len(l) >= 2: return f(*l)
            return py(l)
        return py(*a, **k)
    return f
# python's min keeps the first of equals; values are equal so the choice is unobservable
v_min = _mm("min", lambda a,b: ite(b < a, b, a), min)
v_max = _mm("max", lambda a,b: ite(b > a, b, a), max)
def v_slice_indices(s, n):
    """slice.indices for symbolic entries: CPython's PySlice_AdjustIndices"""
    step = 1 if s.step is None else s.step
    if step == 0: raise ValueError("slice step cannot be zero")
    neg = bool(step < 0)
    lo, up = (-1, n-1) if neg else (0, n)
    def adj(v, d):
        if v is None: return d
        v = ite(v < 0, v_max(v+n, lo), v_min(v, up)) if issym(v) or issym(n) else (max(v+n,lo) if v < 0 else min(v,up))
        return v
    return (adj(s.start, up if neg else lo), adj(s.stop, lo if neg else up), step)

HELPERS = {"vp_int_":v_int,"vp_float_":v_float,"vp_len_":v_len,"vp_isinstance_":v_isinstance,"vp_min_":v_min,"vp_max_":v_max}
RENAME = {"int":"vp_int_","float":"vp_float_","len":"vp_len_","isinstance":"vp_isinstance_","min":"vp_min_","max":"vp_max_"}

class Tr(ast.NodeTransformer):
    def __init__(self, shadowed): self.shadowed = shadowed
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in RENAME and n.func.id not in self.shadowed:
            n.func = ast.copy_location(ast.Name(RENAME[n.func.id], ast.Load()), n.func)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "indices" and len(n.args) == 1 and not n.keywords:
            return ast.copy_location(ast.Call(ast.Name("vp_indices_", ast.Load()), [n.func.value, n.args[0]], []), n)
        return n
    def visit_Assign(self, n):
        self.generic_visit(n)
        # fun = int: a conversion function under another name
        if isinstance(n.value, ast.Name) and n.value.id == "int" and "int" not in self.shadowed: n.value = ast.copy_location(ast.Name("vp_int_", ast.Load()), n.value)
        return n
def v_indices(s, n):
    if isinstance(s, slice) and (issym(n) or any(issym(v) for v in (s.start,s.stop,s.step))): return v_slice_indices(s, n)
    return s.indices(n)
HELPERS["vp_indices_"] = v_indices

class NpImport(ast.NodeTransformer):
    """'import numpy as np' is followed by rebinding np, so that module constants and
    default arguments use the exact pi as well"""
    def visit_Import(self, n):
        if any(a.name == "numpy" and a.asname == "np" for a in n.names):
            return [n, ast.copy_location(ast.Assign([ast.Name("np", ast.Store())], ast.Name("vp_np_", ast.Load())), n)]
        return n

class LoopCut(ast.NodeTransformer):
    """replace loop number k (source order) of the visited function by its contract"""
    def __init__(self, specs): self.specs, self.k, self.used = specs, -1, set()
    def _cut(self, node):
        self.k += 1
        k = self.k
        if k not in self.specs: return self.generic_visit(node)
        spec = self.specs[k]
        for sub in ast.walk(node):
            if isinstance(sub, (ast.Break, ast.Continue, ast.Return)) : raise Unsupported("loop contract on a loop with break/continue/return")
        self.used.add(k)
        node = self.generic_visit(node)
        if not isinstance(node, ast.While): raise Unsupported("loop contract expects a while loop")
        src = "vp_entry_(%d, locals())\n(%s,) = vp_havoc_(%d, locals())\nif 0: pass\n" % (k, ",".join(spec["havoc"]), k)
        new = ast.parse(src).body
        new[2].test = node.test
        new[2].body = node.body + ast.parse("vp_exit_(%d, locals())" % k).body
        return [ast.copy_location(x, node) for x in new]
    visit_While = _cut
    visit_For   = _cut

def _assigned(tree):
    s = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name in RENAME: s.add(n.name)
    return s

SRC = {}
def source(name):
    p = os.path.join(PKG, name+".py")
    if p not in SRC: SRC[p] = open(p, encoding="utf-8").read()
    return SRC[p]

SIBLINGS = ["utils","wcsutils","bunch","enmap","fft","powspec","curvedsky","tilemap","multimap","coordinates","pointsrcs","array_ops","resample","wavelets","uharm","lensing","reproject"]
_cache = {}
def load(name, loops=None, symbolic=True):
    """Clone of pixell.<name>. loops: {funcname: {loop index: spec}}"""
    key = name if loops is None else None
    if key in _cache: return _cache[key]
    real = importlib.import_module("pixell."+name)     # also checks the module imports at all
    tree = ast.parse(source(name))
    shadow = _assigned(tree)   # names the module defines itself: leave those alone at module level
    tree = Tr(shadow).visit(tree)
    if symbolic: tree = NpImport().visit(tree)
    if loops:
        for fn, specs in loops.items():
            hit = [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) and n.name == fn]
            if not hit: raise Unsupported("no function %s" % fn)
            lc = LoopCut(specs); lc.visit(hit[-1])
            if lc.used != set(specs): raise Unsupported("loop contract of %s does not fit the code" % fn)
    ast.fix_missing_locations(tree)
    mod = types.ModuleType("pixell."+name)
    mod.__package__ = "pixell"; mod.__file__ = os.path.join(PKG, name+".py")
    mod.__dict__.update(HELPERS)
    mod.__dict__["vp_np_"] = NPM
    if loops:
        flat = {}
        for fn, specs in loops.items():
            for k, s in specs.items(): flat[k] = s
        def entry(k, L): flat[k]["entry"](L)
        def havoc(k, L): return flat[k]["do_havoc"](L)
        def exit_(k, L):
            flat[k]["exit"](L); raise PathEnd()
        mod.__dict__.update(vp_entry_=entry, vp_havoc_=havoc, vp_exit_=exit_)
    exec(compile(tree, mod.__file__, "exec"), mod.__dict__)
    if symbolic: mod.np = NPM
    if key is not None: _cache[key] = mod
    for s in SIBLINGS:
        if s != name and isinstance(mod.__dict__.get(s), types.ModuleType) and s in ("utils","wcsutils","bunch","enmap","fft","powspec","curvedsky"):
            mod.__dict__[s] = load(s)
    return mod
NPM = npshim.NP()
def fresh():
    _cache.clear(); SRC.clear()
