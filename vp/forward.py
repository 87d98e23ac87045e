"""Methods that stand for a module function: every argument given to the method reaches the function under the same
name, and arguments left out get the function's defaults.  Decided by calling the method with the function replaced by a
recorder (one call per method covers all argument values: the sentinels are opaque)."""
import inspect
class _S:
    def __init__(self, n): self.n = n
    def __repr__(self): return "<%s>" % self.n
class _Stop(Exception): pass
def forwarding(b, obj, cls, mod, names, differ=()):
    for name in names:
        meth = cls.__dict__.get(name); fn = getattr(mod, name, None)
        if isinstance(meth, property) or not inspect.isfunction(meth) or not callable(fn): continue
        try: ms, fs = inspect.signature(meth), inspect.signature(fn)
        except ValueError: continue
        mp = [p for p in list(ms.parameters.values())[1:]]
        if any(p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for p in mp): continue
        seen = []
        def rec(*a, **k):
            ba = fs.bind(*a, **k); seen.append(ba); raise _Stop()
        setattr(mod, name, rec)
        try:
            full = {p.name: _S(p.name) for p in mp}
            for mode in ("all","defaults"):
                del seen[:]; b.case("method", cls.__name__, name, mode)
                try: meth(obj, **(full if mode == "all" else {p.name: full[p.name] for p in mp if p.default is p.empty}))
                except _Stop: pass
                except Exception: continue
                if not seen: continue
                ba = seen[0]; ba.apply_defaults()
                for p in mp:
                    if p.name not in fs.parameters: continue
                    got = ba.arguments.get(p.name)
                    if mode == "all": b.check("%s.%s passes on %s" % (cls.__name__,name,p.name), got is full[p.name] or not (isinstance(got,_S) or got is fs.parameters[p.name].default or _eq(got, fs.parameters[p.name].default)), got)
                    elif p.default is not p.empty and (name,p.name) not in differ and fs.parameters[p.name].default is not inspect.Parameter.empty: b.check("%s.%s has the function's default for %s" % (cls.__name__,name,p.name), got is fs.parameters[p.name].default or _eq(got, fs.parameters[p.name].default) or callable(got), (got, fs.parameters[p.name].default))
        finally: setattr(mod, name, fn)
def _eq(a, b):
    try: return (type(a) == type(b) or {type(a),type(b)} <= {int,float}) and bool(a == b)
    except Exception: return False
