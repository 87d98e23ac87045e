"""Verification conditions for the C kernels, generated from clang's syntax tree of the current source.

Memory is a mathematical array per object, integers are unbounded, floating-point numbers are real and
the functions of libm are uninterpreted apart from the axioms listed in AXIOMS. Loops are cut by invariants: the
candidates come from the contract, those that do not hold on entry or are not preserved are dropped
(Houdini), and the postconditions have to follow from those that remain. Loops marked with OpenMP
pragmas are taken to be sequential. A proof that does not go through decides nothing."""
import json, subprocess, os, sys, time, math
if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path: sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3
I, R = z3.IntSort(), z3.RealSort()
PI = z3.Real("pi")
class Unsupported(Exception): pass
class Ptr:
    __slots__ = ("obj","off","null")
    def __init__(self, obj, off=None, null=None): self.obj, self.off, self.null = obj, z3.IntVal(0) if off is None else off, z3.BoolVal(False) if null is None else null
class Alloc:
    def __init__(self, zero): self.zero = zero
UF = {}
def uf(name, n=1):
    if name not in UF: UF[name] = z3.Function(name, *([R]*(n+1)))
    return UF[name]
FACTS = []; _seen = set()
def fact(key, f):
    if key not in _seen: _seen.add(key); FACTS.append(f)
def fn(name, *a):
    """libm functions. cos is even and sin odd"""
    a = [z3.ToReal(x) if x.sort() == I else x for x in a]; v = uf(name, len(a))(*a)
    if name in ("sin","cos"): w = uf(name)(-a[0]); fact((name,a[0].get_id()), w == (v if name == "cos" else -v))
    return v
def mul(a, b):
    """a product as a commutative function"""
    if z3.is_rational_value(a) or z3.is_rational_value(b): return a*b
    v = uf("mul",2)(a,b); fact(("mul",a.get_id(),b.get_id()), v == uf("mul",2)(b,a)); return v
AXIOMS = "cos is even and sin is odd; sqrt, atan2, asin, acos, fmod and the like are functions"
LIBM = {"sin","cos","tan","asin","acos","atan","atan2","sqrt","fmod","fabs","floor","ceil","exp","log","pow","hypot"}
IGNORE = {"free","fprintf","printf","fflush","wall_time"}

class State:
    def __init__(self): self.env, self.mem, self.pc, self.loops, self.log = {}, {}, [], [], None
    def clone(self):
        s = State(); s.env, s.mem, s.pc, s.loops, s.log = dict(self.env), dict(self.mem), list(self.pc), list(self.loops), self.log
        return s
    def rd(self, name, i): return z3.Select(self.mem[name], i)

_ast = {}; ENUMS = {}
def ast(path):
    key = (path, os.stat(path).st_mtime_ns)
    if key not in _ast:
        p = subprocess.run(["clang","-Xclang","-ast-dump=json","-fsyntax-only","-w","-I",os.path.join(os.path.dirname(os.path.abspath(__file__)),"cinc"),"-I",os.path.dirname(path),path], capture_output=True, text=True)
        if p.returncode: raise Unsupported("clang does not accept %s: %s" % (path, p.stderr[-500:]))
        d = json.loads(p.stdout)
        _ast[key] = ({f["name"]: f for f in d["inner"] if f.get("kind") == "FunctionDecl" and any(x.get("kind") == "CompoundStmt" for x in f.get("inner",[]))},
            {v["id"]: v for v in d["inner"] if v.get("kind") == "VarDecl"})
        for e in d["inner"]:
            if e.get("kind") != "EnumDecl": continue
            v = -1
            for c in e.get("inner",[]):
                if c.get("kind") != "EnumConstantDecl": continue
                x = c.get("inner") or []
                v = v+1 if not x else int(x[0]["value"]) if x[0].get("kind") == "ConstantExpr" and "value" in x[0] else None
                if v is None: break
                ENUMS[path,c["id"]] = v
    return _ast[key]
def qual(n): t = n["type"]; return (t.get("desugaredQualType") or t["qualType"]).replace("const ","").replace("restrict","").strip()
def sortof(t):
    t = t.replace("const","").replace("restrict","").strip()
    if t.endswith("*"): return None
    if any(w in t for w in ("double","float")): return R
    if any(w in t for w in ("int","long","short","char","inum","size_t","bool")): return I
    raise Unsupported("type "+t)
def pointee(t): return sortof(t.replace("const","").replace("restrict","").strip()[:-1].strip())

class Proof:
    """one function against one contract"""
    def __init__(self, path, name, cands=None, hints=None, timeout=3000, abstract=False, callee=None):
        self.callee = callee or {}; self.abstract = abstract; FACTS.clear(); _seen.clear()
        self.funs, self.globs = ast(path); self.path, self.name = path, name
        if name not in self.funs: raise Unsupported("no function %s in %s" % (name, path))
        self.cands, self.hints, self.timeout = cands or (lambda p, s: []), hints or (lambda p, s: []), timeout
        self.n = 0; self.solver_s = 0.0; self.nvc = 0; self.kept = []; self.params = {}; self.depth = 0
        self.locals = []
    def fresh(self, sort, tag="v"): self.n += 1; return z3.Const("%s!%d" % (tag, self.n), sort)
    # --- solver
    def valid(self, st, goal):
        s = z3.Solver(); s.set("timeout", self.timeout); t = time.time()
        for c in st.pc: s.add(c)
        for c in self.hints(self, st): s.add(c)
        s.add(*FACTS)
        s.add(z3.Not(goal)); r = s.check(); self.solver_s += time.time()-t; self.nvc += 1
        return (True, None) if r == z3.unsat else (False, s.model() if r == z3.sat else None)
    def survivors(self, st, goals, live):
        """those of goals[live] that follow from the path condition"""
        live = list(live); bad = set()
        if not live: return live
        s = z3.Solver(); s.set("timeout", self.timeout); t = time.time()
        for c in st.pc: s.add(c)
        for c in self.hints(self, st): s.add(c)
        s.add(*FACTS)
        for _ in range(40):
            if not live: break
            s.push(); s.add(z3.Not(z3.And([goals[i] for i in live]))); r = s.check(); self.nvc += 1
            m = s.model() if r == z3.sat else None; s.pop()
            if r == z3.unsat: self.solver_s += time.time()-t; return live
            if m is None: break
            n = [i for i in live if not z3.is_false(m.eval(goals[i], model_completion=True))]
            if len(n) == len(live): break
            live = n
        for i in list(live):
            s.push(); s.add(z3.Not(goals[i])); s.set("timeout", 500); r = s.check(); self.nvc += 1
            m = s.model() if r == z3.sat and i not in bad else None; s.pop()
            if r != z3.unsat: bad.add(i)
            if m is not None: bad |= {j for j in live if z3.is_false(m.eval(goals[j], model_completion=True))}
        self.solver_s += time.time()-t
        return [i for i in live if i not in bad]
    # --- expressions
    def num(self, v):
        if isinstance(v, z3.ExprRef) and v.sort() == z3.BoolSort(): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v
    def boolean(self, v):
        if isinstance(v, Ptr): return z3.Not(v.null)
        if v.sort() == z3.BoolSort(): return v
        return v != 0
    def cast(self, v, t):
        s = sortof(t)
        if s is None: return v
        v = self.num(v)
        if s == R and v.sort() == I: return z3.ToReal(v)
        if s == I and v.sort() == R: return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        return v
    def lval(self, n, st):
        k = n["kind"]
        if k == "ParenExpr" or k in ("ImplicitCastExpr","CStyleCastExpr"): return self.lval(n["inner"][0], st)
        if k == "DeclRefExpr": return ("var", n["referencedDecl"]["id"])
        if k == "ArraySubscriptExpr":
            p, i = self.ev(n["inner"][0], st), self.ev(n["inner"][1], st)
            return ("mem", p.obj, z3.simplify(p.off+i))
        if k == "UnaryOperator" and n["opcode"] == "*":
            p = self.ev(n["inner"][0], st); return ("mem", p.obj, p.off)
        raise Unsupported("lvalue "+k)
    def load(self, lv, st):
        if lv[0] == "var":
            if (self.path,lv[1]) in ENUMS: return z3.IntVal(ENUMS[self.path,lv[1]])
            if lv[1] not in st.env:
                if lv[1] in self.globs: raise Unsupported("global variable")
                raise Unsupported("unknown variable")
            return st.env[lv[1]]
        return z3.Select(st.mem[lv[1]], lv[2])
    def store(self, lv, v, st):
        if lv[0] == "var":
            old = st.env.get(lv[1])
            if isinstance(old, z3.ExprRef) and isinstance(v, z3.ExprRef): v = self.fit(v, old.sort())
            st.env[lv[1]] = v
            if st.log is not None: st.log.add(("var", lv[1]))
        else:
            a = st.mem[lv[1]]; st.mem[lv[1]] = z3.Store(a, lv[2], self.fit(self.num(v), a.sort().range()))
            if st.log is not None: st.log.add(("mem", lv[1]))
    def fit(self, v, s):
        v = self.num(v)
        if v.sort() == s: return v
        return z3.ToReal(v) if s == R else z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
    def arith(self, op, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op in ("+","-") and isinstance(a, Ptr) and not isinstance(b, Ptr): return Ptr(a.obj, a.off+b if op == "+" else a.off-b, a.null)
            if op == "+" and isinstance(b, Ptr): return self.arith("+", b, a)
            raise Unsupported("pointer arithmetic")
        a, b = self.num(a), self.num(b)
        if a.sort() != b.sort(): a, b = self.fit(a, R), self.fit(b, R)
        if op == "+": return a+b
        if op == "-": return a-b
        if op == "*": return mul(a,b) if self.abstract and a.sort() == R else a*b
        if op == "/":
            if a.sort() == R: return a/b
            q = z3.If(b > 0, z3.If(a >= 0, a/b, -((-a)/b)), z3.If(a >= 0, -(a/(-b)), (-a)/(-b))); return q
        if op == "%": return a - b*self.arith("/", a, b)
        if op == "<": return a < b
        if op == ">": return a > b
        if op == "<=": return a <= b
        if op == ">=": return a >= b
        if op == "==": return a == b
        if op == "!=": return a != b
        raise Unsupported("operator "+op)
    def ev(self, n, st):
        k = n["kind"]; inn = n.get("inner", [])
        if k == "ConstantExpr" and "value" in n: return z3.IntVal(int(n["value"]))
        if k == "ParenExpr" or k == "ConstantExpr": return self.ev(inn[0], st)
        if k == "IntegerLiteral": return z3.IntVal(int(n["value"]))
        if k == "FloatingLiteral": return PI if abs(float(n["value"])-math.pi) < 1e-14 else z3.RealVal(n["value"])
        if k == "UnaryExprOrTypeTraitExpr": return z3.IntVal(1)
        if k in ("ImplicitCastExpr","CStyleCastExpr"):
            c = n["castKind"]
            if c in ("LValueToRValue",): return self.load(self.lval(inn[0], st), st)
            if c == "NullToPointer": return Ptr("null", null=z3.BoolVal(True))
            if c == "PointerToBoolean": return z3.Not(self.ev(inn[0], st).null)
            v = self.ev(inn[0], st)
            if c == "BitCast":
                if isinstance(v, Alloc):
                    s = pointee(qual(n))
                    if s is None: raise Unsupported("array of pointers")
                    self.n += 1; name = "heap!%d" % self.n
                    st.mem[name] = z3.K(I, z3.RealVal(0) if s == R else z3.IntVal(0)) if v.zero else z3.Const(name, z3.ArraySort(I, s))
                    return Ptr(name)
                return v
            if c == "ToVoid": return v
            if c in ("IntegralCast","FloatingCast","IntegralToFloating","FloatingToIntegral","NoOp","IntegralToBoolean","FloatingToBoolean"):
                return self.boolean(v) if c.endswith("Boolean") else (v if isinstance(v, Ptr) else self.cast(v, qual(n)))
            if c in ("FunctionToPointerDecay","ArrayToPointerDecay"): return v
            raise Unsupported("cast "+c)
        if k == "DeclRefExpr":
            if n["referencedDecl"]["kind"] == "FunctionDecl": return n["referencedDecl"]["name"]
            return self.load(("var", n["referencedDecl"]["id"]), st)
        if k == "ArraySubscriptExpr": return self.load(self.lval(n, st), st)
        if k == "UnaryOperator":
            op = n["opcode"]
            if op == "*": return self.load(self.lval(n, st), st)
            if op in ("++","--"):
                lv = self.lval(inn[0], st); o = self.load(lv, st); v = self.arith("+" if op == "++" else "-", o, z3.IntVal(1)); self.store(lv, v, st)
                return o if n.get("isPostfix") else v
            v = self.ev(inn[0], st)
            if op == "!": return z3.Not(self.boolean(v))
            if op == "-": return -self.num(v)
            if op == "+": return v
            raise Unsupported("unary "+op)
        if k == "BinaryOperator":
            op = n["opcode"]
            if op == "=":
                v = self.ev(inn[1], st); lv = self.lval(inn[0], st); self.store(lv, v, st); return v
            if op == ",": self.ev(inn[0], st); return self.ev(inn[1], st)
            if op in ("&&","||"):
                a = self.boolean(self.ev(inn[0], st)); m = (dict(st.env), dict(st.mem)); b = self.boolean(self.ev(inn[1], st))
                if (st.env, st.mem) != m and any(st.env[x] is not m[0].get(x) for x in st.env) : raise Unsupported("side effect in a condition")
                return z3.And(a, b) if op == "&&" else z3.Or(a, b)
            return self.arith(op, self.ev(inn[0], st), self.ev(inn[1], st))
        if k == "CompoundAssignOperator":
            lv = self.lval(inn[0], st); v = self.arith(n["opcode"][:-1], self.load(lv, st), self.ev(inn[1], st)); self.store(lv, v, st); return v
        if k == "ConditionalOperator":
            c = self.boolean(self.ev(inn[0], st)); a, b = self.num(self.ev(inn[1], st)), self.num(self.ev(inn[2], st))
            if isinstance(a, Ptr): raise Unsupported("conditional pointer")
            if a.sort() != b.sort(): a, b = self.fit(a, R), self.fit(b, R)
            return z3.If(c, a, b)
        if k == "CallExpr":
            f = self.ev(inn[0], st); args = inn[1:]
            if f in LIBM:
                v = [self.num(self.ev(a, st)) for a in args]
                if f == "fabs": return z3.If(v[0] >= 0, v[0], -v[0])
                return fn(f, *v)
            if f in ("malloc","calloc"): return Alloc(f == "calloc")
            if f == "realloc":
                p = self.ev(args[0], st)
                if isinstance(p, Ptr) and z3.is_true(p.null): return Alloc(False)
                raise Unsupported("realloc of live memory")
            if f in IGNORE: return self.fresh(R, "t") if f == "wall_time" else z3.IntVal(0)
            if f in self.callee: return self.callee[f](self, [self.ev(a, st) for a in args], st)
            if f in self.funs: return self.call(f, [self.ev(a, st) for a in args], st)
            raise Unsupported("call of %s" % f)
        raise Unsupported("expression "+k)
    def call(self, f, args, st):
        """small helpers are inlined (their bodies are part of the same translation unit)"""
        self.depth += 1
        if self.depth > 6: raise Unsupported("recursion")
        d = self.funs[f]; ps = [x for x in d["inner"] if x["kind"] == "ParmVarDecl"]
        s = st.clone()
        for p, a in zip(ps, args): s.env[p["id"]] = a if isinstance(a, Ptr) else self.cast(a, qual(p))
        res = self.ex([x for x in d["inner"] if x["kind"] == "CompoundStmt"][0], s)
        self.depth -= 1
        if len(res) != 1: raise Unsupported("branching helper "+f)
        s, sig = res[0]; st.env, st.mem, st.pc = s.env, s.mem, s.pc
        return sig[1] if isinstance(sig, tuple) else None
    # --- statements
    def ex(self, n, st):
        k = n["kind"]; inn = n.get("inner", [])
        if k == "CompoundStmt":
            live, done = [st], []
            for x in inn:
                nxt = []
                for s in live:
                    for s2, sig in self.ex(x, s):
                        (nxt if sig is None else done).append(s2 if sig is None else (s2, sig))
                live = nxt
            return [(s, None) for s in live]+done
        if k == "DeclStmt":
            for v in inn:
                if v["kind"] != "VarDecl": raise Unsupported("declaration "+v["kind"])
                s = sortof(qual(v))
                if v.get("inner"):
                    x = self.ev(v["inner"][0], st)
                    if isinstance(x, Alloc): raise Unsupported("untyped memory")
                    st.env[v["id"]] = x if isinstance(x, Ptr) else self.cast(x, qual(v))
                    if isinstance(x, Ptr) and x.obj.startswith("heap") and x.obj not in self.locals: self.locals.append(x.obj)
                elif s is not None: st.env[v["id"]] = self.fresh(s, v["name"])
                else: st.env[v["id"]] = Ptr("undef")
            return [(st, None)]
        if k == "IfStmt":
            c = self.boolean(self.ev(inn[0], st)); out = []
            for b, cond in ((1, c), (2, z3.Not(c))):
                cond = z3.simplify(cond)
                if z3.is_false(cond): continue
                s = st.clone(); s.pc.append(cond)
                out += self.ex(inn[b], s) if len(inn) > b else [(s, None)]
            return out
        if k == "SwitchStmt": return self.switch(inn, st)
        if k == "ForStmt": return self.loop(inn[0], inn[2], inn[3], inn[4], st)
        if k == "WhileStmt": return self.loop({}, inn[0], {}, inn[1], st)
        if k == "ReturnStmt": return [(st, ("return", self.ev(inn[0], st) if inn else None))]
        if k == "ContinueStmt": return [(st, "continue")]
        if k == "BreakStmt": return [(st, "break")]
        if k == "NullStmt" or not k: return [(st, None)]
        self.ev(n, st); return [(st, None)]
    def switch(self, inn, st):
        v = self.num(self.ev(inn[0], st)); flat = []
        for x in inn[1].get("inner", []):
            while x["kind"] in ("CaseStmt","DefaultStmt"):
                flat.append(("case", self.num(self.ev(x["inner"][0], st)) if x["kind"] == "CaseStmt" else None)); x = x["inner"][-1]
            flat.append(("do", x))
        vals = [x for kind, x in flat if kind == "case" and x is not None]; out = []
        starts = [(v == x, i) for i, (kind, x) in enumerate(flat) if kind == "case" and x is not None]
        starts.append((z3.And([v != x for x in vals]), ([i for i, (kind, x) in enumerate(flat) if kind == "case" and x is None]+[len(flat)])[0]))
        for c, i in starts:
            s = st.clone(); s.pc.append(c); live = [s]
            for kind, x in flat[i:]:
                if kind != "do": continue
                nxt = []
                for s in live:
                    for s2, sig in self.ex(x, s):
                        if sig is None: nxt.append(s2)
                        else: out.append((s2, None if sig == "break" else sig))
                live = nxt
            out += [(s, None) for s in live]
        return out
    def havoc(self, st, mods):
        for kind, x in mods:
            if kind == "var":
                if x not in st.env: continue
                o = st.env[x]
                if isinstance(o, Ptr): raise Unsupported("pointer changed in a loop")
                st.env[x] = self.fresh(o.sort(), "l")
            elif x in st.mem: st.mem[x] = self.fresh(st.mem[x].sort(), "m")
    def loop(self, init, cond, inc, body, st0):
        st = st0.clone()
        if init.get("kind"):
            r = self.ex(init, st)
            if len(r) != 1: raise Unsupported("loop initialisation")
            st = r[0][0]
        known = set(st.env)
        def step(s):
            out = []
            for s2, sig in self.ex(body, s):
                if sig == "break" or isinstance(sig, tuple): raise Unsupported("break or return in a loop")
                if inc.get("kind"): self.ev(inc, s2)
                out.append(s2)
            return out
        # what the loop changes
        mods, dry, self.dry = set(), getattr(self, "dry", False), True
        try:
            while True:
                s = st.clone(); s.log = set(); self.havoc(s, mods); step(s)
                new = {m for m in s.log if m[0] == "mem" and m[1] in st.mem or m[0] == "var" and m[1] in known}
                if new <= mods: break
                mods |= new
        finally: self.dry = dry
        if st0.log is not None: st0.log.update(mods)
        if st.log is not None: st.log.update(mods)
        if self.dry:
            e = st.clone(); self.havoc(e, mods); return [(e, None)]
        vs = [x for kk, x in mods if kk == "var"]
        start = {x: st.env[x] for x in vs if isinstance(st.env[x], z3.ExprRef) and st.env[x].sort() == I}
        bound = []
        def cmp(n):
            while n["kind"] in ("ParenExpr","ImplicitCastExpr"): n = n["inner"][0]
            if n["kind"] == "BinaryOperator" and n["opcode"] in ("<","<=") and (("var",) == self.lv0(n["inner"][0])[:1]): bound.append((self.lv0(n["inner"][0])[1], n["inner"][1], n["opcode"]))
        cmp(cond)
        def inv(s, lv):
            out = [(s.env[x] >= v, "lower bound") for x, v in start.items()]
            for x, b, op in bound:
                if x in start:
                    bb = self.num(self.ev(b, s)); bb = bb+1 if op == "<=" else bb
                    if bb.sort() == I: out.append((z3.Or(s.env[x] <= bb, s.env[x] == start[x]), "upper bound"))
            s.loops = lv
            return out + list(self.cands(self, s))
        var = [x for x, *_ in bound if x in start] or list(start)
        def lv(s): return st0.loops+[s.env[x] for x in var[:1]]
        first = inv(st, lv(st)); live = self.survivors(st, [g for g, nm in first], range(len(first)))
        while True:
            h = st.clone(); h.log = None; self.havoc(h, mods)
            cs = inv(h, lv(h)); assume = [cs[i][0] for i in live]
            b = h.clone(); b.pc += assume; b.pc.append(self.boolean(self.ev(cond, b)))
            left = live
            for s2 in step(b):
                after = inv(s2, st0.loops+[s2.env[x] for x in var[:1]])
                left = self.survivors(s2, [g for g, nm in after], left)
            if len(left) == len(live): break
            live = left
        self.kept.append((len(live), len(first)))
        e = h.clone(); e.pc += assume; e.pc.append(z3.Not(self.boolean(self.ev(cond, e)))); e.loops = list(st0.loops)
        return [(e, None)]
    def lv0(self, n):
        while n["kind"] in ("ParenExpr","ImplicitCastExpr"): n = n["inner"][0]
        return ("var", n["referencedDecl"]["id"]) if n["kind"] == "DeclRefExpr" and n["referencedDecl"]["kind"] != "FunctionDecl" else ("other",)
    # --- entry
    def run(self, pre, post, null=()):
        """pre(p) -> assumptions; post(p, before, after) -> [(name, formula)]"""
        d = self.funs[self.name]; st = State()
        for p in d["inner"]:
            if p["kind"] != "ParmVarDecl": continue
            s = sortof(qual(p))
            if s is None:
                e = pointee(qual(p))
                if e is None: raise Unsupported("array of pointers")
                st.mem[p["name"]] = z3.Const(p["name"], z3.ArraySort(I, e)); st.env[p["id"]] = Ptr(p["name"], null=z3.BoolVal(p["name"] in null)); self.params[p["name"]] = st.mem[p["name"]]
            else: st.env[p["id"]] = self.params[p["name"]] = z3.Const(p["name"], s)
        st.pc = list(pre(self)); before = st.clone(); self.before = before
        res = self.ex([x for x in d["inner"] if x["kind"] == "CompoundStmt"][0], st)
        out = {}
        for s, sig in res:
            if isinstance(sig, str): raise Unsupported("stray "+sig)
            s.ret = sig[1] if isinstance(sig, tuple) else None
            for nm, g in post(self, before, s): out.setdefault(nm, []).append(self.valid(s, g)[0])
        return [(nm, all(v)) for nm, v in out.items()]

def guards(loops, ghosts):
    """conditions comparing the loop counters with the ghost indices"""
    if not loops: yield z3.BoolVal(True); return
    # outer counters at their ghost, innermost anywhere
    import itertools
    opts = []
    for v in loops: opts.append([f(v,g) for g in ghosts for f in ((lambda v,g: v > g), (lambda v,g: v == g), (lambda v,g: v <= g), (lambda v,g: v < g))])
    for v in opts: yield from v
    if len(loops) > 1:
        for a, b in itertools.combinations(range(len(loops)), 2):
            for x in opts[a]:
                for y in opts[b]: yield z3.And(x, y)
    if len(loops) > 2:
        eq = [[v == g for g in ghosts] for v in loops]
        for e in itertools.product(*eq[:-1]):
            for y in opts[-1]: yield z3.And(*e, y)
def prove(out, path, fname, pre, post, cands=None, hints=None, null=(), tag="", lemmas=(), abstract=False, callee=None):
    """discharge the contract and record its obligations; what cannot be proved is left undecided"""
    lbl = fname+tag
    def ob(nm, ok, n=1, t=0.0): out["obligations"].append(dict(name="%s: %s" % (lbl, nm), n=n, discharged=n if ok else 0, refuted=0, unknown=0 if ok else n, time=t, solvers={"z3":n} if ok else {}))
    try:
        p = Proof(path, fname, cands, hints, abstract=abstract, callee=callee); t = time.time(); parts = p.run(pre, post, null)
        for nm, ok in parts: ob(nm, ok)
        k = sum(a for a, b in p.kept)
        if k: ob("loop invariants hold on entry and are preserved", True, 2*k, p.solver_s)
        out["solver_s"] += p.solver_s
        for nm, hyp, goal in lemmas:
            s = z3.Solver(); s.set("timeout", 20000); s.add(*hyp); s.add(z3.Not(goal)); ob(nm, s.check() == z3.unsat)
        return p
    except Unsupported as e: out["unsupported"].append("%s: outside the C subset: %s" % (lbl, e))
    except () if os.environ.get("VP_TRACE") else (KeyError, IndexError, TypeError, AttributeError, z3.Z3Exception) as e: out["unsupported"].append("%s: outside the C subset: %s %s" % (lbl, type(e).__name__, e))
