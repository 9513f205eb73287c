"""Programs: syntax trees, their text, random generation.

Nothing here decides a verdict.  The small interpreter only helps the generator
to pick interesting inputs and to keep programs within bounds; what a program
means is decided by spec/Lang.tla.
"""
import random
import values

R = 21888242871839275222246405745257275088548364400416034343698204186575808495617

# ---------------------------------------------------------------- constructors
def num(v): return {"k": "num", "v": str(v)}
def var(n): return {"k": "var", "n": n}
def idx(n, *i): return {"k": "idx", "n": n, "i": list(i)}
def bn(op, l, r): return {"k": "bin", "op": op, "l": l, "r": r}
def call(n, *a): return {"k": "call", "n": n, "a": list(a)}
def cond(op, l, r): return {"k": "cond", "op": op, "l": l, "r": r}
NONE = {"k": "none"}
def svar(n, e): return {"k": "var", "n": n, "e": e}
def sset(n, e): return {"k": "set", "n": n, "e": e}
def aset(n, i, e): return {"k": "aset", "n": n, "i": i, "e": e}
def sarr(n, es): return {"k": "arr", "n": n, "e": es}
def func(n, p, b, hdr=None): return {"k": "func", "n": n, "p": p, "b": b, "h": hdr or p}
def vfun(n, p, b): return {"k": "vfun", "n": n, "p": p, "b": b, "h": p}
def ret(e=NONE): return {"k": "ret", "e": e}
def scall(e): return {"k": "call", "e": e}
def seq(l, r): return {"k": "eq", "l": l, "r": r}
def split(e): return {"k": "split", "e": e}
def public(ns): return {"k": "public", "n": ns}
def sif(*cs): return {"k": "if", "c": [{"c": c, "b": b} for c, b in cs]}
def sfor(c, s, b): return {"k": "for", "c": c, "s": s, "b": b}

# --------------------------------------------------------------------- printer
PREC = {"+": 1, "-": 1, "*": 2, "/": 2}

def expr(e, ctx=0, rng=None):
    """Minimal brackets; with rng also redundant ones."""
    k = e["k"]
    if k == "num": s = e["v"]
    elif k == "var": s = e["n"]
    elif k == "idx": s = e["n"] + "".join("[%s]" % expr(i, 0, rng) for i in e["i"])
    elif k == "call": s = "%s(%s)" % (e["n"], ",".join(expr(a, 0, rng) for a in e["a"]))
    elif k == "raw": return e["s"]
    else:
        p = PREC[e["op"]]
        sp = " " if rng is None or rng.random() < .5 else ""
        s = expr(e["l"], p, rng) + sp + e["op"] + sp + expr(e["r"], p + 1, rng)
        if p < ctx: return "(" + s + ")"
    if rng is not None and rng.random() < .12 and k != "num" or (rng is not None and rng.random() < .04):
        return "(" + s + ")"
    return s

def scond(c, rng): return expr(c["l"], 0, rng) + " " + c["op"] + " " + expr(c["r"], 0, rng)

def hdr(h): return ",".join(h)

def stmt(s, ind, rng):
    t = "\t" * ind
    k = s["k"]
    E = lambda e: expr(e, 0, rng)
    if k == "var": return t + "var %s = %s\n" % (s["n"], E(s["e"]))
    if k == "set": return t + "%s = %s\n" % (s["n"], E(s["e"]))
    if k == "aset": return t + "%s%s = %s\n" % (s["n"], "".join("[%s]" % E(i) for i in s["i"]), E(s["e"]))
    if k == "arr": return t + "var %s[] = {%s}\n" % (s["n"], ",".join(E(e) for e in s["e"]))
    if k == "func": return t + "func %s(%s){\n%s%s}\n" % (s["n"], hdr(s["h"]), block(s["b"], ind + 1, rng), t)
    if k == "vfun": return t + "var %s = func(%s){\n%s%s}\n" % (s["n"], hdr(s["h"]), block(s["b"], ind + 1, rng), t)
    if k == "ret": return t + ("return\n" if s["e"]["k"] == "none" else "return %s\n" % E(s["e"]))
    if k == "call": return t + "%s(%s)\n" % (s["e"]["n"], ",".join(E(a) for a in s["e"]["a"]))
    if k == "eq": return t + "equal(%s,%s)\n" % (E(s["l"]), E(s["r"]))
    if k == "split": return t + "SPLIT(%s)\n" % E(s["e"])
    if k == "public": return t + "public{%s}\n" % ",".join(s["n"])
    if k == "for": return t + "for (%s;%s){\n%s%s}\n" % (scond(s["c"], rng), stmt(s["s"], 0, rng).strip(),
                                                        block(s["b"], ind + 1, rng), t)
    if k == "if":
        out = t
        for i, c in enumerate(s["c"]):
            if i: out += "else "
            if c["c"]["k"] == "none": out += "{\n"
            else: out += "if %s {\n" % scond(c["c"], rng)
            out += block(c["b"], ind + 1, rng) + t + "}"
        return out + "\n"
    if k == "raw": return s["s"]
    raise Exception(k)

def block(b, ind, rng): return "".join(stmt(s, ind, rng) for s in b)
def source(top, rng=None): return "".join(stmt(s, 0, rng) for s in top)

# ----------------------------------------------------------------- interpreter
class IllFormed(Exception): pass
class Stop(Exception): pass

class Fn:
    def __init__(s, ps, b, sc, bound): s.ps, s.b, s.sc, s.bound = ps, b, sc, bound
class V:
    __slots__ = ("c", "v")
    def __init__(s, c, v): s.c, s.v = c, v

class Interp:
    """Runs a program on one input vector; counts what it would cost."""
    def __init__(s, m, fuel=400):
        s.m, s.fuel, s.gates, s.ok, s.eqs = m, fuel, 0, "ok", []
        s.maxstat = 0
    def find(s, sc, n):
        while sc is not None and n not in sc["m"]: sc = sc["p"]
        return sc
    def look(s, n, sc):
        f = s.find(sc, n)
        if f is None: raise IllFormed("unknown " + n)
        return f["m"][n]
    def arr(s, e, sc):
        n = e["n"]
        for i in e["i"]:
            v = s.ev(i, sc)
            if not isinstance(v, V) or not v.c: raise IllFormed("index")
            n += "[%d]" % v.v
        return n
    def ev(s, e, sc):
        k = e["k"]
        if k == "num": return V(True, int(e["v"]) % s.m)
        if k == "var": return s.look(e["n"], sc)
        if k == "idx": return s.look(s.arr(e, sc), sc)
        if k == "bin":
            a, b = s.ev(e["l"], sc), s.ev(e["r"], sc)
            if not isinstance(a, V) or not isinstance(b, V): raise IllFormed("number")
            c = a.c and b.c
            op = e["op"]
            if op == "+": v = a.v + b.v
            elif op == "-": v = a.v - b.v
            elif op == "*":
                v = a.v * b.v
                if not a.c and not b.c: s.gates += 1
            else:
                if not b.c:
                    s.gates += 1
                    if b.v == 0 and s.ok == "ok": s.ok = "undef" if a.v == 0 else "no"
                elif b.v == 0: raise IllFormed("division by constant zero")
                v = a.v * pow(b.v, -1, s.m) if b.v else 0
            return V(c, v % s.m)
        if k == "call":
            a = [s.ev(x, sc) for x in e["a"]]
            if any(x is None for x in a): raise IllFormed("no value")
            if e["n"] in ("addGateConstraint", "scalarBaseMultiply") and not all(isinstance(x, V) for x in a):
                raise IllFormed("number")
            if e["n"] == "addGateConstraint":
                s.gates += 1
                return V(False, (a[0].v + a[1].v) % s.m)
            if e["n"] == "scalarBaseMultiply":
                s.gates += 1
                return V(False, basex(a[0].v) % s.m)
            f = s.look(e["n"], sc)
            if not isinstance(f, Fn): raise IllFormed("not a function")
            return s.apply(f, a)
        raise Exception(k)
    def apply(s, f, a):
        if len(a) > len(f.ps): raise IllFormed("too many arguments")
        b = dict(f.bound)
        b.update(zip(f.ps, a))
        if len(a) < len(f.ps): return Fn(f.ps[len(a):], f.b, f.sc, b)
        s.burn()
        done, v = s.run(f.b, {"m": b, "p": f.sc})
        return v
    def burn(s):
        s.fuel -= 1
        if s.fuel < 0 or s.gates > 60: raise Stop()
    def cnd(s, c, sc):
        a, b = s.ev(c["l"], sc), s.ev(c["r"], sc)
        if not (isinstance(a, V) and isinstance(b, V) and a.c and b.c): raise IllFormed("condition")
        return {"==": a.v == b.v, "!=": a.v != b.v, "<": a.v < b.v, "<=": a.v <= b.v,
                ">": a.v > b.v, ">=": a.v >= b.v}[c["op"]]
    def run(s, body, sc):
        for x in body:
            if x["k"] in ("func", "vfun"): sc["m"][x["n"]] = Fn(x["p"], x["b"], sc, {})
        for x in body:
            d, v = s.ex(x, sc)
            if d: return True, v
        return False, None
    def ex(s, x, sc):
        k = x["k"]
        s.burn()
        if k == "var":
            v = s.ev(x["e"], sc)
            if v is None: raise IllFormed("no value")
            sc["m"][x["n"]] = v
        elif k == "arr":
            for i, e in enumerate(x["e"]): sc["m"]["%s[%d]" % (x["n"], i)] = s.ev(e, sc)
        elif k in ("set", "aset"):
            n = x["n"] if k == "set" else s.arr(x, sc)
            v = s.ev(x["e"], sc)
            if v is None: raise IllFormed("no value")
            f = s.find(sc, n)
            if f is None: raise IllFormed("assign")
            f["m"][n] = v
        elif k == "ret":
            return True, (V(True, 1) if x["e"]["k"] == "none" else s.ev(x["e"], sc))
        elif k == "call": s.ev(x["e"], sc)
        elif k == "eq":
            a, b = s.ev(x["l"], sc), s.ev(x["r"], sc)
            if not (isinstance(a, V) and isinstance(b, V)): raise IllFormed("number")
            s.eqs.append((a.v, b.v))
            if s.ok == "ok" and a.v != b.v: s.ok = "no"
        elif k == "split":
            v = s.ev(x["e"], sc)
            if not isinstance(v, V): raise IllFormed("number")
            s.gates += s.m.bit_length() + 1
        elif k == "if":
            for c in x["c"]:
                if c["c"]["k"] == "none" or s.cnd(c["c"], sc):
                    return s.run(c["b"], {"m": {}, "p": sc})
        elif k == "for":
            while s.cnd(x["c"], sc):
                s.burn()
                d, v = s.run(x["b"], {"m": {}, "p": sc})
                if d: return True, v
                s.ex(x["s"], sc)
        return False, None

def main_of(top): return [x for x in top if x["k"] == "func" and x["n"] == "main"][-1]

def interpret(top, ins, m, fuel=400):
    it = Interp(m, fuel)
    g = {"m": {}, "p": None}
    for x in top:
        if x["k"] in ("func", "vfun"): g["m"][x["n"]] = Fn(x["p"], x["b"], g, {})
    for x in top:
        if x["k"] in ("var", "arr"): it.ex(x, g)
    mn = main_of(top)
    it.run(mn["b"], {"m": {n: V(False, v % m) for n, v in zip(mn["p"], ins)}, "p": g})
    return it

# the x coordinate of e*G1, for choosing inputs
P = 21888242871839275222246405745257275088696311157297823662689037894645226208583
def basex(e):
    e %= R
    acc, q = None, (1, 2)
    def add(a, b):
        if a is None: return b
        if b is None: return a
        if a[0] == b[0]:
            if (a[1] + b[1]) % P == 0: return None
            l = 3 * a[0] * a[0] * pow(2 * a[1], -1, P)
        else: l = (b[1] - a[1]) * pow(b[0] - a[0], -1, P)
        x = (l * l - a[0] - b[0]) % P
        return x, (l * (a[0] - x) - a[1]) % P
    while e:
        if e & 1: acc = add(acc, q)
        q = add(q, q)
        e >>= 1
    return acc[0] if acc else 0

# ------------------------------------------------------------------- generator
RESERVED = {"main", "def", "return", "if", "else", "for", "func", "var", "equal", "public", "import", "SPLIT", "addGateConstraint", "scalarBaseMultiply"}
class Scope:
    def __init__(s, parent, kind):
        s.p, s.kind, s.m, s.used = parent, kind, {}, set()

class Gen:
    """Random programs.  w: weights of the statement kinds."""
    def __init__(s, rng, m, w=None, nin=2, maxdepth=3, arrays=False):
        s.rng, s.m = rng, m
        s.w = dict(var=5, set=3, eq=3, fn=2, iff=2, loop=2, vcall=2, arr=1, aset=1, walk=.5, div=.08, agc=.05)
        s.w.update(w or {})
        s.nin, s.uid = nin, 0
        s.maxdepth = maxdepth
        s.budget = 14
        s.shadow = .25
        s.repeats, s.past = False, []
        s.params = []       # further parameters of main: name and dimensions
        s.sbm = 4
        s.tricky = rng.random() < .5   # names which are prefixes of each other
        s.taken = set()
        s.fixed = rng.choice([.05, .05, .5])
        s.outs = None       # names of the inputs results are compared with
    # types: "d" number, "s" static number, ("f", (param types), returns?), ("a", n) array
    def fresh(s, base):
        s.uid += 1
        if s.tricky:
            r = s.rng
            while True:
                if r.random() < .12:   # names which are nearly words of the language
                    n = r.choice(["For", "If", "Else", "Var", "Return", "Func", "Public", "Import", "IF", "VAR", "Main", "MAIN", "Equal", "Split", "split", "returns", "vary", "_x", "x_y", "_", "one", "mainn", "ELSE", "func_", "Xor", "and", "True"])
                    if n not in s.taken and n not in RESERVED: break
                n = r.choice(["x", "x", "y", "a", base, "x1", "forx", "if_"]) + "".join(r.choice("112") for _ in range(r.choice([0, 1, 1, 2, 2, 3])))
                if n not in s.taken and n not in RESERVED: break
                if r.random() < .1:
                    n = "%s%d_" % (base, s.uid)
                    break
            s.taken.add(n)
            return n
        return "%s%d" % (base, s.uid)
    def chain(s, n):
        """names, most of which continue another"""
        r, out = s.rng, []
        for _ in range(n):
            q = r.choice(out) + r.choice("1102") if out and r.random() < .75 else s.fresh("x")
            if q not in s.taken or q not in out: out.append(q)
            else: out.append(s.fresh("x"))
            s.taken.add(out[-1])
        r.shuffle(out)
        return out
    def vis(s, sc):
        out = {}
        while sc is not None:
            for n, t in sc.m.items():
                if n not in out: out[n] = (t, sc)
            sc = sc.p
        return out
    def use(s, sc, n):
        while sc is not None:
            sc.used.add(n)
            if n in sc.m: return
            sc = sc.p
    def names(s, sc, pred): return sorted(n for n, (t, _) in s.vis(sc).items() if pred(t))
    def newname(s, sc, base):
        if s.rng.random() < s.shadow and sc.p is not None:
            c = [n for n, (t, d) in s.vis(sc).items() if d is not sc and n not in sc.used and n != "main"
                 and n not in s.protected]
            if c: return s.rng.choice(sorted(c))
        return s.fresh(base)
    def lit(s):
        r = s.rng
        if s.m < 100: return num(r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, s.m - 1, s.m, s.m + 2, 12, 40]))
        if r.random() < .15: return num(values.limbs(r))
        return num(r.choice([0, 1, 1, 2, 3, 5, 7, 10, 11, 12, 21, 111, 2**32, 2**64 - 1, 2**64, 2**64 + 13, R - 1, R, R + 1, R + 5, 2 * R + 3,
                             2**255 - 19, r.randrange(R), r.randrange(1000), r.randrange(2**128)]))
    def small(s): return num(s.rng.randrange(0, min(6, s.m - 1)))
    def expr(s, sc, d, static=False):
        r = s.rng
        if d <= 0 or r.random() < .25: return s.atom(sc, static)
        x = r.random()
        if x < (.12 if not static else .3 if s.fixed < .2 else .6):
            e = s.callexpr(sc, d, static)
            if e is not None: return e
        if static: return bn(r.choice("+-*"), s.expr(sc, d - 1, True), s.expr(sc, d - 1, True))
        if x < .12 + s.w["agc"] and not static:
            return call("addGateConstraint", s.expr(sc, d - 1), s.expr(sc, d - 1))
        if r.random() < s.w.get("sbm", 0) and s.sbm > 0:
            s.sbm -= 1
            return call("scalarBaseMultiply", s.expr(sc, d - 1))
        if s.repeats and s.past and r.random() < .4:
            e = s.again(sc)
            if e is not None: return e
        op = r.choice("++--***")
        if r.random() < s.w["div"]: op = "/"
        l, rt = s.expr(sc, d - 1), s.expr(sc, d - 1)
        if op == "/" and rt["k"] == "num" and int(rt["v"]) % s.m == 0: op = "+"
        if s.repeats and op in "*/": s.past.append((op, l, rt, sc))
        return bn(op, l, rt)
    def again(s, sc):
        """an earlier product or quotient in another spelling"""
        r = s.rng
        chain = []
        q = sc
        while q is not None: chain.append(q); q = q.p
        c = [x for x in s.past if x[3] in chain]
        if not c: return None
        op, l, t, _ = r.choice(c[-6:])
        if r.random() < .3:
            # one which looks alike but is another
            l, t = s.alike(l, sc), s.alike(t, sc)
            return bn(op, l, t) if op == "*" or not (t["k"] == "num" and int(t["v"]) % s.m == 0) else None
        k = lambda e: bn("*", num(r.choice([2, 3, 4])), e) if r.random() < .5 else bn("*", e, num(r.choice([2, 3, 5])))
        def shuffle(e):
            if e["k"] == "bin" and e["op"] == "+" and r.random() < .5: e = bn("+", e["r"], e["l"])
            if e["k"] == "bin" and e["op"] == "-" and r.random() < .3: e = bn("+", bn("-", num(0), e["r"]), e["l"])
            if r.random() < .25: e = k(e)
            return e
        l, t = shuffle(l), shuffle(t)
        if op == "*" and r.random() < .5: l, t = t, l
        e = bn(op, l, t)
        return k(e) if r.random() < .2 else e
    def alike(s, e, sc, c="1"):
        """the digits at the end of a name become a coefficient of the shorter name, or the other way round; or another variable"""
        r = s.rng
        if e["k"] == "bin":
            if e["op"] == "*" and e["l"]["k"] == "num" and e["r"]["k"] == "var" and e["l"]["v"] != "0": return s.alike(e["r"], sc, e["l"]["v"])
            if r.random() < .5: return bn(e["op"], s.alike(e["l"], sc), e["r"])
            return bn(e["op"], e["l"], s.alike(e["r"], sc) if e["op"] != "/" else e["r"])
        if e["k"] != "var": return e
        n, vis = e["n"], s.vis(sc)
        ok = [q for q, (t, _) in vis.items() if t == "d"]
        opts = []
        for q in ok:
            if n != q and n.startswith(q) and n[len(q):].isdigit() and n[len(q)] != "0": opts.append((str(int(n[len(q):] + c)), q))
            if q != n and q.startswith(n) and q[len(n):].isdigit() and c.startswith(q[len(n):]):
                k = c[len(q) - len(n):]
                opts.append((k or "1", q))
        if not opts or r.random() < .2:
            if not ok: return e
            opts = [(c, r.choice(ok))]
        k, q = r.choice(opts)
        s.use(sc, q)
        return var(q) if k == "1" else bn("*", num(k), var(q))
    def atom(s, sc, static=False):
        r = s.rng
        c = s.names(sc, lambda t: t == "s" or (not static and t == "d"))
        arrs = [] if static else s.names(sc, lambda t: isinstance(t, tuple) and t[0] == "a")
        if arrs and r.random() < .3:
            n = r.choice(arrs)
            s.use(sc, n)
            return idx(n, *[s.index(sc, r.randrange(k)) for k in s.vis(sc)[n][0][1]])
        if c and r.random() < (.8 if not static else .6):
            n = r.choice(c)
            s.use(sc, n)
            return var(n)
        return s.lit() if not static else s.small()
    def index(s, sc, k):
        """an expression for the constant k"""
        r = s.rng
        if r.random() < .7: return num(k)
        j = r.randrange(1, 4)
        if k + j < s.m and r.random() < .5: return bn("-", num(k + j), num(j))
        return s.idle(sc, num(k))
    def idle(s, sc, e):
        """the same value, but something is called on the way"""
        c = s.callexpr(sc, 1, True)
        if c is None: return bn("-", bn("+", e, num(1)), num(1)) if s.rng.random() < .5 else e
        return bn("+", e, bn("*", num(0), c)) if s.rng.random() < .5 else bn("+", bn("*", c, num(0)), e)
    def arg(s, sc, t, d):
        if t == "d": return s.expr(sc, d)
        if t == "s": return s.expr(sc, min(d, 1), True)
        c = s.names(sc, lambda q: isinstance(q, tuple) and q[0] == "f" and fits(q, t))
        if c:
            n = s.rng.choice(c)
            s.use(sc, n)
            return var(n)
        # a partial application that leaves the right parameters
        if d < -1: return None
        c = s.names(sc, lambda q: isinstance(q, tuple) and q[0] == "f" and len(q) < 4 and len(q[1]) > len(t[1]) and q[2] == t[2]
                    and q[1][len(q[1]) - len(t[1]):] == t[1])
        if c:
            n = s.rng.choice(c)
            s.use(sc, n)
            q = s.vis(sc)[n][0]
            args = [s.arg(sc, u, d - 1) for u in q[1][:len(q[1]) - len(t[1])]]
            if any(a is None for a in args): return None
            return call(n, *args)
        return None
    def callexpr(s, sc, d, static=False, want=True):
        if static: c = s.names(sc, lambda q: isinstance(q, tuple) and q[0] == "f" and q[2] == "s")
        else: c = s.names(sc, lambda q: isinstance(q, tuple) and q[0] == "f" and (q[2] == want or (want and q[2] == "s")) and len(q) < 4)
        if not c: return None
        n = s.rng.choice(c)
        s.use(sc, n)
        args = [s.arg(sc, t, d - 1) for t in s.vis(sc)[n][0][1]]
        if any(a is None for a in args): return None
        return call(n, *args)
    def cond(s, sc):
        return cond(s.rng.choice(["==", "!=", "<", "<=", ">", ">="]), s.expr(sc, 1, True), s.expr(sc, 1, True))
    def stmts(s, sc, n, depth, retv):
        out = []
        for _ in range(n):
            x = s.stmt(sc, depth, retv)
            if x is None: continue
            out += x if isinstance(x, list) else [x]
        return out
    def stmt(s, sc, depth, retv):
        r = s.rng
        ks = list(s.w)
        ks = [k for k in ks if k not in ("div", "agc", "sbm")]
        k = r.choices(ks, [s.w[q] for q in ks])[0]
        if k in ("fn", "iff", "loop") and depth <= 0: k = "set"
        if k == "var":
            if r.random() < .3:
                e = s.expr(sc, 1, True); t = "s"
            else:
                e = s.expr(sc, 2); t = "d"
            if r.random() < .12:
                c = s.names(sc, lambda q: isinstance(q, tuple) and q[0] == "f" and len(q) < 4 and len(q[1]) > 1)
                if c:
                    n0 = r.choice(c)
                    s.use(sc, n0)
                    q = s.vis(sc)[n0][0]
                    kk = r.randrange(1, len(q[1]))
                    args = [s.arg(sc, u, 1) for u in q[1][:kk]]
                    if all(a is not None for a in args):
                        e, t = call(n0, *args), ("f", q[1][kk:], q[2])
            n = s.newname(sc, "v")
            if mentions(e, n): n = s.fresh("v")
            sc.m[n] = t
            return svar(n, e)
        if k == "set":
            if r.random() < .2:
                c = [n for n in s.names(sc, lambda t: t == "s") if n not in s.protected]
                if c:
                    n = r.choice(c)
                    s.use(sc, n)
                    return sset(n, s.expr(sc, 1, True))
            c = s.names(sc, lambda t: t == "d")
            if not c: return None
            n = r.choice(c)
            s.use(sc, n)
            return sset(n, s.expr(sc, 2))
        if k == "eq" and s.outs is not None:
            if sc.kind != "main": return None
            n = s.outname()
            s.outs.append(n)
            return seq(s.expr(sc, 3), var(n)) if r.random() < .7 else seq(var(n), s.expr(sc, 3))
        if k == "eq":
            return seq(s.expr(sc, 2), s.atom(sc) if r.random() < .7 else s.expr(sc, 1))
        if k == "arr":
            n = s.fresh("a")
            es = [s.expr(sc, 1) for _ in range(r.randrange(1, 4))]
            sc.m[n] = ("a", (len(es),))
            return sarr(n, es)
        if k == "aset":
            c = s.names(sc, lambda t: isinstance(t, tuple) and t[0] == "a")
            if not c: return None
            n = r.choice(c)
            s.use(sc, n)
            return aset(n, [s.index(sc, r.randrange(q)) for q in s.vis(sc)[n][0][1]], s.expr(sc, 2))
        if k == "walk":
            c = s.names(sc, lambda t: isinstance(t, tuple) and t[0] == "a" and len(t[1]) == 1)
            if not c: return None
            a = r.choice(c)
            s.use(sc, a)
            n, i = s.vis(sc)[a][0][1][0], s.fresh("i")
            out = [svar(i, num(0))]
            sc.m[i] = "s"
            s.protected.add(i); s.counters.add(i)
            b = Scope(sc, "for")
            here = lambda: idx(a, var(i) if r.random() < .7 else bn("-", num(n - 1), var(i)))
            body = []
            for _ in range(r.randrange(1, 3)):
                e = bn(r.choice("+-*"), here(), s.expr(b, 1))
                if r.random() < .4: e = bn(e["op"], e["r"], e["l"])
                ds = s.names(b, lambda t: t == "d")
                x = r.random()
                if x < .4 and ds:
                    v = r.choice(ds)
                    s.use(b, v)
                    body.append(sset(v, e))
                elif x < .8: body.append(aset(a, [here()["i"][0]], e))
                else: body.append(seq(e, s.atom(b)))
            h = num(n)
            if r.random() < .2: h = s.idle(sc, h)
            out.append(sfor(cond("<", var(i), h), sset(i, bn("+", var(i), num(1))), body))
            return out
        if k == "fn": return s.function(sc, depth)
        if k == "vcall":
            e = s.callexpr(sc, 2, want=r.random() < .5)
            return None if e is None else scall(e)
        if k == "iff":
            cs = []
            nb = r.randrange(1, 4)
            for i in range(nb):
                c = s.cond(sc)
                b = Scope(sc, "if")
                body = s.stmts(b, r.randrange(1, 3), depth - 1, retv)
                if retv is not None and r.random() < .25: body.append(s.ret(b, retv))
                cs.append((c, body))
            if nb > 1 or r.random() < .6:
                b = Scope(sc, "if")
                body = s.stmts(b, r.randrange(1, 3), depth - 1, retv)
                cs.append((NONE, body))
            return sif(*cs)
        if k == "loop":
            lo, hi, st = r.randrange(0, 2), r.randrange(1, 4), r.choice([1, 1, 1, 2])
            again = [n for n in s.names(sc, lambda t: t == "s") if n in s.counters]
            if again and r.random() < .45:
                # a counter which an earlier loop has used already
                i, st = r.choice(again), 1
                s.use(sc, i)
                out = [] if r.random() < .6 else [sset(i, num(lo))]
                hi = hi if out else r.randrange(2, 7)
            else:
                i = s.fresh("i")
                out = [svar(i, num(lo))]
                sc.m[i] = "s"
                s.protected.add(i); s.counters.add(i)
                if r.random() < .2:
                    x = s.stmt(sc, 0, retv)
                    if x is not None: out += x if isinstance(x, list) else [x]
            down = r.random() < .2
            b = Scope(sc, "for")
            body = s.stmts(b, r.randrange(1, 3), depth - 1, retv)
            if retv is not None and r.random() < .2:
                q = Scope(b, "if")
                body.append(sif((s.cond(q), [s.ret(q, retv)])))
            kind = r.random()
            if kind < .5: c = cond("<", var(i), num(hi))
            elif kind < .75: c = cond("<=", var(i), num(hi - 1))
            else: c = cond("!=", var(i), num(lo + st * r.randrange(0, 3)))
            if not out and c["op"] == "!=": c = cond("<", var(i), num(hi))
            if down:
                c = cond(r.choice([">", ">=", "!="]), var(i), num(1)) if out else cond(">", var(i), num(hi - 1))
                if out and c["op"] != ">=" and r.random() < .5: c["r"] = num(0)
                if out: out[0] = dict(out[0], e=num(r.randrange(1, 5)))
            if r.random() < (.15 if s.fixed < .2 else .4): c["r"] = s.idle(sc, c["r"])
            if r.random() < .15: c = cond(dict(zip("< <= > >= != ==".split(), "> >= < <= != ==".split()))[c["op"]], c["r"], c["l"])
            out.append(sfor(c, sset(i, bn("-" if down else "+", var(i), num(1 if down else st))), body))
            if r.random() < .25:
                # and another one straight after it
                q = Scope(sc, "for")
                b2 = s.stmts(q, 1, depth - 1, retv)
                if b2: out.append(sfor(cond("<", var(i), num(r.randrange(2, 7))), sset(i, bn("+", var(i), num(1))), b2))
            return out
    def outname(s): return "out%d" % len(s.outs) if not s.tricky or s.rng.random() < .5 else s.fresh("out")
    def ret(s, sc, retv):
        if retv == "main" and s.rng.random() < .5: return ret()
        return ret(s.expr(sc, 2)) if retv else ret()
    def function(s, sc, depth):
        r = s.rng
        np_ = r.randrange(0, 4)
        returns = r.random() < .75
        fixed = r.random() < s.fixed     # returns a constant
        types = tuple(r.choice(["d", "d", "d", "s", ("f", ("d",), True), ("f", ("d", "d"), True)] if sc.p is not None or True else "d")
                      for _ in range(np_))
        if fixed: returns, types = True, tuple(r.choice("ssd") for _ in range(max(1, np_)))
        n = s.newname(sc, "f") if sc.kind != "global" else s.fresh("f")
        b = Scope(sc, "fn")
        ps = []
        for t in types:
            q = s.fresh("p") if r.random() < .7 else s.newname(b, "p")
            if q in ps: q = s.fresh("p")
            ps.append(q)
            b.m[q] = t
        body = []
        if fixed:
            body += s.stmts(b, r.randrange(0, 3), depth - 1, None)
            if r.random() < .4: body.append(seq(s.expr(b, 1), s.atom(b)))
            body += [ret(s.expr(b, 1, True))]
            sc.m[n] = ("f", types, "s")
            return (vfun if r.random() < .4 and sc.kind != "global" else func)(n, ps, body)
        recursive = returns and "s" in types and r.random() < .35
        if recursive:
            k = types.index("s")
            s.protected.add(ps[k])
            q = Scope(b, "if")
            body.append(sif((cond("==", var(ps[k]), num(0)), [ret(s.expr(q, 1))])))
        body += s.stmts(b, r.randrange(0, 3), depth - 1, returns)
        if returns:
            if recursive:
                args = [bn("-", var(ps[i]), num(1)) if i == k else
                        (var(ps[i]) if isinstance(t, tuple) else s.arg(b, t, 1)) for i, t in enumerate(types)]
                for p in ps: s.use(b, p)
                e = bn(r.choice("+-*"), call(n, *args), s.expr(b, 1))
                if r.random() < .5: e = bn(e["op"], e["r"], e["l"])
                body.append(ret(e))
                s.use(b, n)
            else: body.append(ret(s.expr(b, 2)))
        elif r.random() < .2: body.append(ret())
        sc.m[n] = ("f", types, returns) if not recursive else ("f", types, returns, "rec")
        if recursive:
            # called with a small constant only
            return [(vfun if r.random() < .4 and sc.kind != "global" else func)(n, ps, body)] + s.reccall(sc, n, types)
        return (vfun if r.random() < .4 and sc.kind != "global" else func)(n, ps, body)
    def reccall(s, sc, n, types):
        if sc.kind == "global":
            s.pending.append((n, types))
            return []
        k = types.index("s")
        args = [num(s.rng.randrange(0, 4)) if i == k else s.arg(sc, t, 1) for i, t in enumerate(types)]
        if any(a is None for a in args): return []
        v = s.fresh("v")
        s.use(sc, n)
        sc.m[v] = "d"
        return [svar(v, call(n, *args))]
    def program(s, size=4):
        r = s.rng
        s.protected, s.counters = set(), set()
        s.pending = []
        top = []
        g = Scope(None, "global")
        g.m["main"] = "x"
        for _ in range(r.randrange(0, 2)):
            n = s.fresh("g")
            top.append(svar(n, s.small()))
            g.m[n] = "s"
        for _ in range(r.randrange(0, 3) if s.w["fn"] else 0):
            f = s.function(g, s.maxdepth - 1)
            top += f if isinstance(f, list) else [f]
        m = Scope(g, "main")
        ins = ["x%d" % i for i in range(s.nin)] if not s.tricky else s.chain(s.nin)
        for x in ins: m.m[x] = "d"
        for x, d in s.params: m.m[x] = "d" if d == () else ("a", d)
        s.protected |= set(ins) | {x for x, _ in s.params}
        body = []
        for n, types in s.pending: body += s.reccall(m, n, types)
        body += s.stmts(m, size, s.maxdepth, "main")
        if r.random() < .6: body.append(ret(s.expr(m, 3)) if r.random() < .8 else ret())
        if s.outs is not None:
            if not s.outs:
                s.outs.append(s.outname())
                body.insert(r.randrange(len(body) + 1) if body and body[-1]["k"] != "ret" else 0, seq(s.expr(g2(None, ins), 2), var(s.outs[0])))
            ins = ins + s.outs
        mn = func("main", ins, body)
        top.insert(r.randrange(len(top) + 1), mn)
        return top

def g2(g, ins):
    m = Scope(g, "main")
    for x in ins: m.m[x] = "d"
    return m

def fits(q, t): return q[1] == t[1] and q[2] == t[2] and len(q) < 4 and len(q[1]) > 0

def mentions(e, n):
    k = e["k"]
    if k == "num": return False
    if k == "var": return e["n"] == n
    if k == "idx": return e["n"] == n or any(mentions(i, n) for i in e["i"])
    if k == "bin": return mentions(e["l"], n) or mentions(e["r"], n)
    if k == "call": return e["n"] == n or any(mentions(a, n) for a in e["a"])
    return False
