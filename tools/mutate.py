#!/usr/bin/env python3
"""Mutation campaign: random small changes to the functions a property lists, to see which its quick check misses.
usage: mutate.py LANE_DIR PROPERTY COUNT SEED     (LANE_DIR holds repo/ and verif/, copies; run under
  unshare -Urm bash -c 'mount --bind LANE/repo /repo; mount --bind LANE/verif /verif; python3 /verif/tools/mutate.py ...')
Survivors are written to LANE_DIR/survivors.txt.  Not used by any check."""
import ast, sys, os, random, subprocess, time, re
lane, pid, count, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
R = "/repo"
py = "/opt/venv/bin/python"
env = dict(os.environ, PATH="/opt/venv/bin:"+os.environ["PATH"], VP_FAILFAST="1", VERIF_SEED="1", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", DUCC0_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")
fns = subprocess.run([py, "-c", "import sys,importlib; sys.path.insert(0,'/verif'); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')\nfrom vp import core,run\nfor m in run.mods_for('%s'): importlib.import_module('vp.contracts.'+m)\nreg=core.REGISTRY['%s']\nprint('FNS '+' '.join(sorted({f for k in ('contracts','bounded') for c in reg[k] for f in c.fns})))" % (pid,pid)], capture_output=True, text=True, env=env, cwd="/verif").stdout
fns = [f for l in fns.split("\n") if l.startswith("FNS ") for f in l[4:].split()]
CMP = {ast.Lt:"<=", ast.LtE:"<", ast.Gt:">=", ast.GtE:">", ast.Eq:"!=", ast.NotEq:"=="}
BIN = {ast.Add:"-", ast.Sub:"+", ast.Mult:"/", ast.Div:"*", ast.FloorDiv:"/", ast.Mod:"+"}
files = {}
def load(mod):
    if mod not in files:
        p = os.path.join(R, *mod.split("."))+".py"
        if not os.path.exists(p): files[mod] = None
        else:
            t = open(p).read(); files[mod] = (p, t, ast.parse(t))
    return files[mod]
def find(f):
    parts = f.split(".")
    for k in range(len(parts)-1, 0, -1):
        m = load(".".join(parts[:k]))
        if m:
            body, node = m[2].body, None
            for q in parts[k:]:
                node = next((n for n in body if isinstance(n,(ast.FunctionDef,ast.ClassDef)) and n.name == q), None)
                if node is None: return None
                body = node.body
            return m, node
def seg(t, a, b): return t[a:b]
def offs(text):
    o = [0]
    for l in text.split("\n"): o.append(o[-1]+len(l.encode())+1)
    return o
def sites(m, fn):
    p, text, _ = m; o = offs(text); raw = text.encode(); P = lambda n: o[n.lineno-1]+n.col_offset; E = lambda n: o[n.end_lineno-1]+n.end_col_offset; S = lambda n: raw[P(n):E(n)].decode()
    out = []
    doc = set()
    for n in ast.walk(fn):
        if isinstance(n,(ast.FunctionDef,ast.ClassDef)) and n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant): doc.add(n.body[0])
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP: out.append((P(n),E(n),"%s %s %s" % (S(n.left), CMP[type(n.ops[0])], S(n.comparators[0]))))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left,ast.Constant) and isinstance(n.left.value,str)): out.append((P(n),E(n),"(%s) %s (%s)" % (S(n.left),BIN[type(n.op)],S(n.right))))
        elif isinstance(n, ast.BoolOp) and len(n.values) == 2: out.append((P(n),E(n),"%s %s %s" % (S(n.values[0]), "or" if isinstance(n.op,ast.And) else "and", S(n.values[1]))))
        elif isinstance(n, ast.If): out.append((P(n.test),E(n.test),"not (%s)" % S(n.test)))
        elif isinstance(n, ast.Constant) and type(n.value) in (int,float): out.append((P(n),E(n),repr({0:1,1:2,2:3,0.5:0.0,1.0:2.0}.get(n.value,n.value+1))))
        elif isinstance(n, ast.Constant) and n.value in (True,False) and n.value is not None: out.append((P(n),E(n),repr(not n.value)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub): out.append((P(n),E(n),"(%s)" % S(n.operand)))
        elif isinstance(n, (ast.AugAssign,)) or isinstance(n, ast.Expr) and n not in doc and isinstance(n.value, ast.Call) or isinstance(n, ast.Assign) and isinstance(n.targets[0],(ast.Subscript,ast.Attribute)): out.append((P(n),E(n),"pass"))
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and any(isinstance(q,ast.Name) and q.id == n.targets[0].id for q in ast.walk(n.value)): out.append((P(n),E(n),"pass"))
        elif isinstance(n, ast.Call) and n.keywords:
            for k in n.keywords:
                if k.arg:
                    a, b = o[k.lineno-1]+k.col_offset, o[k.end_lineno-1]+k.end_col_offset; out.append((a,b,"**{}"))
        elif isinstance(n, ast.Call) and isinstance(n.func,ast.Attribute) and n.func.attr == "copy" and not n.args: out.append((P(n),E(n),S(n.func.value)))
        elif isinstance(n, ast.Slice) and n.lower is not None and n.upper is not None: out.append((P(n.lower),E(n.lower),""))
        elif isinstance(n, ast.Tuple) and isinstance(n.ctx,ast.Load) and len(n.elts) == 2: out.append((P(n.elts[0]),E(n.elts[1]),"%s, %s" % (S(n.elts[1]),S(n.elts[0]))))
        elif isinstance(n, ast.Call) and len(n.args) == 2: out.append((P(n.args[0]),E(n.args[1]),"%s, %s" % (S(n.args[1]),S(n.args[0]))))
    return out
rng = random.Random(seed)
pool = []
for f in fns:
    r = find(f)
    if not r: continue
    ss = sites(*r)
    for s in ss: pool.append((f, r[0], s, 1/len(ss)**0.5))
print(pid, len(fns), "functions", len(pool), "sites", flush=True)
done = set(); log = open(os.path.join(lane,"survivors.txt"),"a"); n = kill = 0
while n < count and len(done) < len(pool):
    i = rng.choices(range(len(pool)), [x[3] for x in pool])[0]
    if i in done: continue
    done.add(i); f, m, (a,b,new), _ = pool[i]; raw = m[1].encode()
    t = raw[:a]+new.encode()+raw[b:]
    try: ast.parse(t)
    except SyntaxError: continue
    if ast.dump(ast.parse(t)) == ast.dump(m[2]): continue
    n += 1; open(m[0],"wb").write(t); t0 = time.time()
    try:
        try: r = subprocess.run([py,"-m","vp.run",pid,"--tier","quick"], cwd="/verif", env=env, capture_output=True, text=True, timeout=800); rc, out = r.returncode, r.stdout+r.stderr
        except subprocess.TimeoutExpired: rc, out = -1, "timeout"
    finally: open(m[0],"wb").write(raw)
    line = raw[:a].count(b"\n")+1; old = raw[a:b].decode()
    if rc == 1 and "VIOLATION" in out and "no-failing" not in out.split("VIOLATION")[1].split("\n")[0]: kill += 1
    else:
        log.write("%s rc=%d %s:%d  [%s]  =>  [%s]  %s\n    %s\n" % (pid, rc, os.path.basename(m[0]), line, old[:150].replace("\n","\\n"), new[:150].replace("\n","\\n"), f, raw.split(b"\n")[line-1].decode().strip()[:160])); log.flush()
print(pid, "killed", kill, "of", n, flush=True)
