"""The register machine over field elements, polynomials and sparse vectors."""
import json, random
import core, values

R = core.R

def clean(rep, *keys):
    out = dict(crash=rep["crash"], timeout=rep["timeout"], err=rep["err"])
    for k in keys: out[k] = rep.get(k, [])
    return out

def explore(k, mod, vals, parts=8, limit=5000):
    """every transition between the shapes of a sparse vector"""
    cs = []
    for p in range(parts):
        q = dict(cmd="explore", mod=str(mod), k=k, vals=[str(v) for v in vals], part=p, parts=parts, limit=limit)
        mk = lambda rep: dict(m=str(mod), k=k, rep=clean(rep, "trans", "states"))
        cs.append(core.Case("SparseTrace", q, mk, weight=lambda rec: len(rec["rep"]["trans"]), timeout=120))
    return cs

class Mach:
    """A program for the machine; tracks the kinds (and shapes) of registers."""
    def __init__(s, rng, mod, own=False):
        s.rng, s.mod, s.own = rng, int(mod), own
        s.ops, s.regs = [], []          # regs: (kind, info)
    def op(s, op, a=(), k=0, j=0, v="0", w=(), e=(), d=False, out=()):
        s.ops.append(dict(op=op, a=list(a), k=k, j=j, v=str(v), w=[str(x) for x in w], e=[[str(x), str(y)] for x, y in e], d=d))
        if d: return None
        first = len(s.regs)
        s.regs += list(out)
        return first if len(out) == 1 else list(range(first, first + len(out)))
    # values worth trying
    def num(s, raw=False):
        m, r = s.mod, s.rng
        c = r.random()
        if c < .42: v = r.choice([0, 1, 2, m - 1, m - 2, (m + 1) // 2, 3])
        elif c < .62 and m > 2**64: v = values.limbs(r, m)
        else: v = r.randrange(m)
        if raw and r.random() < .5: v = r.choice([v - m, v + m, -v, v + m * m * m, 7 * m, -m, m])
        return v % m if not raw else v
    def vec(s, n, raw=False):
        c = s.rng.random()
        if c < .15: x = [0] * n
        elif c < .5: x = [s.num(raw) if s.rng.random() < .4 else 0 for _ in range(n)]
        else: x = [s.num(raw) for _ in range(n)]
        if x and s.rng.random() < .3: x[-1] = 0
        return x
    def sparse(s, top):
        n = s.rng.choice([0, 1, 1, 2, 3, 4, 6, 9])
        return {s.rng.randrange(top): s.rng.choice([1, s.mod - 1, s.rng.randrange(1, s.mod), s.num() or 1]) for _ in range(n)}
    def load_num(s, v): return s.op("num", v=v, out=[("n", v)])
    def load_vec(s, w): return s.op("vec", w=w, out=[("p", len(w))])
    def load_spa(s, m): 
        it = list(m.items()); s.rng.shuffle(it)
        return s.op("spa", e=it, out=[("s", max(m, default=0))])
    def pick(s, kind, f=lambda x: True):
        c = [i for i, (k, x) in enumerate(s.regs) if k == kind and f(x)]
        return s.rng.choice(c) if c else None
    def case(s, own=None, **kw):
        q = dict(cmd="mach", mod=str(s.mod), prog=s.ops)
        if s.own: q["own"] = True
        mk = lambda rep: dict(m=str(s.mod), prog=s.ops, rep=clean(rep, "evs"))
        return core.Case("MachTrace", q, mk, weight=lambda rec: len(rec["prog"]), timeout=60, sample=dict(mod=str(s.mod), operations=s.ops[:8]), **kw)

def chunks(xs, n):
    for i in range(0, len(xs), n): yield xs[i:i + n]

# ------------------------------------------------------------------ the field
def field_tables(rng, mod):
    """all operations on all small operands, unreduced and negative ones too"""
    vals = list(range(-mod - 1, 2 * mod + 2))
    pairs = [(a, b) for a in vals for b in vals]
    out = []
    for ch in chunks(pairs, 250):
        M = Mach(rng, mod, own=True)
        used = {}
        def reg(v):
            if v not in used: used[v] = M.load_num(v)
            return used[v]
        for a, b in ch:
            x, y = reg(a), reg(b)
            for op in ("add", "sub", "mul", "div", "exp", "equal", "mulscalar"): M.op(op, [x, y], d=True)
        for a in sorted({a for a, _ in ch}):
            for op in ("neg", "double", "square", "copy", "affine", "inv", "iszero"): M.op(op, [reg(a)], d=True)
            for k in (0, 1, 2, 3, 7, mod, 2 * mod + 1): M.op("expint", [reg(a)], v=k, d=True)
            M.op("str", v=a, d=True)
        out.append(M.case())
    return out

def field_random(rng, n, mod, length=40):
    out = []
    for _ in range(n):
        M = Mach(rng, mod)
        for _ in range(5): M.load_num(M.num(raw=True))
        for _ in range(length):
            op = rng.choice(["add", "sub", "mul", "mulscalar", "neg", "double", "square", "copy", "affine", "inv", "div", "div", "exp", "expint",
                             "equal", "iszero", "str", "nset", "zero", "one", "peval", "pdot", "num"])
            x, y = M.pick("n"), M.pick("n")
            if op in ("add", "sub", "mul", "mulscalar"): M.op(op, [x, y], out=[("n", None)])
            elif op in ("div", "exp"): M.op(op, [x, y], d=True) # zero divisors have no result
            elif op in ("neg", "double", "square", "copy"): M.op(op, [x], out=[("n", None)])
            elif op in ("affine", "inv", "iszero"): M.op(op, [x], d=True)
            elif op == "equal": M.op(op, [x, y], d=True)
            elif op == "expint": M.op(op, [x], v=rng.choice([0, 1, 2, 3, 255, 2**32, 2**64 - 1, rng.getrandbits(64), rng.getrandbits(20)]), out=[("n", None)])
            elif op == "str": M.op(op, v=M.num(raw=True), out=[("n", None)])
            elif op in ("zero", "one"): M.op(op, out=[("n", None)])
            elif op == "num": M.load_num(rng.choice([M.num(raw=True), rng.getrandbits(300), -rng.getrandbits(270)]))
            elif op == "nset": M.op("nset", [x], v=M.num(raw=True), d=True)
            elif op == "peval":
                v = M.load_vec(M.vec(rng.randrange(0, 9), raw=True))
                M.op(op, [v, x], out=[("n", None)])
            elif op == "pdot":
                k = rng.randrange(0, 7)
                M.op(op, [M.load_vec(M.vec(k, raw=True)), M.load_vec(M.vec(k if rng.random() < .85 else k + 1, raw=True))], d=True)
        out.append(M.case())
    return out

# ---------------------------------------------------------------- polynomials
LEN = [0, 1, 1, 2, 2, 3, 4, 5, 7, 9]

def poly_random(rng, n, mod, length=30, ops=None, top=None, raw=True, mutate=True):
    """programs of dense and sparse operations; operands are shared, changed
    in place by the caller, and used again"""
    out = []
    for _ in range(n):
        M = Mach(rng, mod)
        T = top or rng.choice([3, 6, 12, 40, 1000, 10**8])
        npts = min(mod, 9)
        for _ in range(3): M.load_vec(M.vec(rng.choice(LEN)))
        for _ in range(3): M.load_spa(M.sparse(T))
        for _ in range(2): M.load_num(M.num())
        P = lambda f=lambda x: True: M.pick("p", f)
        S = lambda f=lambda x: True: M.pick("s", f)
        short = lambda x: x <= 24
        menu = ops or (["padd", "psub", "pmul", "pdiv", "pscale", "peval", "pinterp", "pdomain", "pzeroat", "plin", "psum", "ptransp", "pdot", "peq", "pzero", "pzeros",
                        "p2s", "s2p", "swith", "sadd", "ssub", "smul", "sdiv", "sscale", "seval", "sdot", "sinterp", "slin", "ssum", "stransp", "scomb", "sclone", "vec", "spa", "num"]
                       + (["pset", "ins", "putadd", "rem", "insno", "putmul"] if mutate else []))
        for _ in range(length):
            op = rng.choice(menu)
            nn, pp, ss = ("n", None), None, None
            if op == "num": M.load_num(M.num())
            elif op == "vec": M.load_vec(M.vec(rng.choice(LEN)))
            elif op == "spa": M.load_spa(M.sparse(T))
            elif op in ("padd", "psub"):
                a, b = P(), P()
                M.op(op, [a, b], out=[("p", max(M.regs[a][1], M.regs[b][1]))])
            elif op == "pmul":
                a, b = P(short), P(short)
                if a is None or b is None: continue
                la, lb = M.regs[a][1], M.regs[b][1]
                M.op(op, [a, b], out=[("p", la + lb - 1 if la and lb else 0)])
            elif op == "pdiv":
                a, b = P(short), P(short)
                if a is None or b is None: continue
                M.op(op, [a, b], d=True)
            elif op == "pscale": a = P(); M.op(op, [a, M.pick("n")], out=[("p", M.regs[a][1])])
            elif op == "peval": M.op(op, [P(), M.pick("n")], out=[nn])
            elif op == "pdot": M.op(op, [P(), P()], d=True)
            elif op in ("peq",): M.op(op, [P(), P()], d=True)
            elif op == "pzero": M.op(op, [P()], d=True)
            elif op == "pzeros": k = rng.randrange(6); M.op(op, k=k, out=[("p", k)])
            elif op == "pinterp":
                a = P(lambda x: x <= npts)
                if a is not None: M.op(op, [a], out=[("p", M.regs[a][1])])
            elif op == "pdomain": k = rng.randrange(1, npts + 1); M.op(op, k=k, out=[("p", k + 1)])
            elif op == "pzeroat":
                k = rng.randrange(1, npts + 1); M.op(op, [M.pick("n")], k=rng.randrange(k), j=k, out=[("p", k)])
            elif op == "plin":
                k = rng.randrange(0, 4); ps = [P() for _ in range(k)]
                w = M.load_vec(M.vec(k)); M.op(op, ps + [w], k=k, out=[("p", M.regs[p][1]) for p in ps])
            elif op == "psum":
                ps = [P() for _ in range(rng.randrange(0, 4))]
                M.op(op, ps, k=len(ps), out=[("p", max([M.regs[p][1] for p in ps], default=0))])
            elif op == "ptransp":
                k, c = rng.randrange(1, 4), rng.randrange(1, 4)
                M.op(op, [M.load_vec(M.vec(c)) for _ in range(k)], k=k, out=[("p", k)] * c)
            elif op == "pset":
                a = P(lambda x: x > 0)
                if a is not None: M.op(op, [a], k=rng.randrange(M.regs[a][1]), v=M.num(), d=True)
            elif op == "p2s": a = P(); M.op(op, [a], out=[("s", M.regs[a][1])])
            elif op == "s2p":
                a = S(lambda x: x <= 30)
                if a is not None:
                    k = M.regs[a][1] + 1
                    if rng.random() < .2: M.op(op, [a], k=rng.randrange(k + 1), d=True)
                    else: M.op(op, [a], k=k, out=[("p", k)])
            elif op == "swith": k = rng.randrange(min(T, 30)); M.op(op, [M.pick("n")], k=k, out=[("s", k)])
            elif op in ("sadd", "ssub"):
                a, b = S(), S(); M.op(op, [a, b], out=[("s", max(M.regs[a][1], M.regs[b][1]))])
            elif op == "smul":
                a, b = S(lambda x: x < 10**9), S(lambda x: x < 10**9)
                if a is not None and b is not None: M.op(op, [a, b], out=[("s", M.regs[a][1] + M.regs[b][1])])
            elif op == "sdiv":
                # division by a divisor of far lower degree has a quotient with as many entries as the dividend's degree
                a, b = S(lambda x: x <= 40), S(lambda x: x <= 40)
                if a is not None and b is not None: M.op(op, [a, b], d=True)
            elif op == "sscale": a = S(); M.op(op, [a, M.pick("n")], out=[("s", M.regs[a][1])])
            elif op == "seval": M.op(op, [S(), M.pick("n")], out=[nn])
            elif op == "sdot":
                a = S(lambda x: x <= 30)
                if a is not None: M.op(op, [a, M.load_vec(M.vec(M.regs[a][1] + 1 + rng.randrange(2)))], out=[nn])
            elif op == "sinterp":
                a = S(lambda x: x < npts)
                if a is not None:
                    k = rng.randrange(M.regs[a][1] + 1, npts + 1)
                    if rng.random() < .2: M.op(op, [a], k=M.regs[a][1], d=True)
                    else: M.op(op, [a], k=k, out=[("s", k)])
            elif op == "slin":
                k = rng.randrange(0, 4); ps = [S() for _ in range(k)]
                w = M.load_vec(M.vec(k)); M.op(op, ps + [w], k=k, out=[("s", M.regs[p][1]) for p in ps])
            elif op == "ssum":
                ps = [S() for _ in range(rng.randrange(0, 4))]
                M.op(op, ps, k=len(ps), out=[("s", max([M.regs[p][1] for p in ps], default=0))])
            elif op == "stransp":
                k, c = rng.randrange(1, 4), rng.randrange(1, 5)
                rows = [M.load_spa({x: M.num() or 1 for x in range(c) if rng.random() < .5}) for _ in range(k)]
                M.op(op, rows, k=k, j=c, out=[("s", k)] * c)
            elif op == "scomb":
                a = S(lambda x: x <= 30)
                if a is not None: M.op(op, [a, M.load_vec(M.vec(M.regs[a][1] + 1))], d=True)
            elif op == "sclone": a = S(); M.op(op, [a], out=[("s", M.regs[a][1])])
            elif op in ("ins", "putadd", "insno", "putmul"):
                a = S(); k = rng.randrange(min(T, 30))
                M.op(op, [a], k=k, v=M.num(), d=True); M.regs[a] = ("s", max(M.regs[a][1], k))
            elif op == "rem": a = S(); M.op(op, [a], k=rng.randrange(min(T, 12)), d=True)
        out.append(M.case())
    return out

def all_vecs(mod, n):
    xs = [[]]
    for v in xs:
        if len(v) < n: xs += [v + [c] for c in range(mod)]
    return xs

def poly_tables(rng, mod, n, dense=("pmul", "padd", "psub"), sparse=("smul", "sadd", "ssub"), per=150):
    """all pairs of polynomials with at most n coefficients"""
    vs = all_vecs(mod, n)
    pairs = [(a, b) for a in vs for b in vs]
    out = []
    for ch in chunks(pairs, per):
        M = Mach(rng, mod, own=True)
        used = {}
        def reg(v, sp):
            k = (tuple(v), sp)
            if k not in used: used[k] = M.load_spa({i: c for i, c in enumerate(v) if c}) if sp else M.load_vec(v)
            return used[k]
        for a, b in ch:
            for op in dense: M.op(op, [reg(a, False), reg(b, False)], d=True)
            if (not a or a[-1]) and (not b or b[-1]):
                for op in sparse: M.op(op, [reg(a, True), reg(b, True)], d=True)
        out.append(M.case())
    return out

def poly_points(rng, mod, n, deg):
    """evaluation everywhere, interpolation, scaling of all polynomials with at most n coefficients"""
    out = []
    for ch in chunks(all_vecs(mod, n), 30):
        M = Mach(rng, mod, own=True)
        xs = [M.load_num(x) for x in list(range(mod)) + [-1, mod, 2 * mod + 1]]
        for v in ch:
            a = M.load_vec(v)
            b = M.load_spa({i: c for i, c in enumerate(v) if c})
            for x in xs:
                M.op("peval", [a, x], d=True); M.op("seval", [b, x], d=True)
                M.op("pscale", [a, x], d=True); M.op("sscale", [b, x], d=True)
            if len(v) <= mod: M.op("pinterp", [a], d=True)
            for d in range(len(v), mod + 1):
                if d: M.op("sinterp", [b], k=d, d=True)
            M.op("p2s", [a], d=True); M.op("s2p", [b], k=len(v), d=True)
        for k in range(1, mod + 1): M.op("pdomain", k=k, d=True)
        out.append(M.case())
    return out

def divisions(rng, n, mod, top=14):
    """random divisions, exact ones among them, dense and sparse"""
    out = []
    for _ in range(n):
        M = Mach(rng, mod)
        for _ in range(8):
            a, b = M.vec(rng.randrange(0, top)), M.vec(rng.choice([0, 1, 1, 2, 3, 4, 6, top]))
            if rng.random() < .3: a = a + [0] * rng.randrange(3)
            if rng.random() < .3: b = b + [0] * rng.randrange(3)
            if rng.random() < .4 and a and b: # an exact division, or nearly
                c = [0] * (len(a) + len(b) - 1)
                for i, x in enumerate(a):
                    for j, y in enumerate(b): c[i + j] = (c[i + j] + x * y) % mod
                if rng.random() < .4: c[rng.randrange(len(c))] = rng.randrange(mod)
                a = c
            M.op("pdiv", [M.load_vec(a), M.load_vec(b)], d=True)
            M.op("sdiv", [M.load_spa({i: x for i, x in enumerate(a) if x}), M.load_spa({i: x for i, x in enumerate(b) if x})], d=True)
        for _ in range(3): # few entries, far apart
            T = rng.choice([20, 60, 300])
            a, b = M.sparse(T), M.sparse(rng.choice([3, T // 2, T]))
            M.op("sdiv", [M.load_spa(a), M.load_spa(b)], d=True)
        # the same divisor again and again, and a dividend that is its own divisor
        a = M.load_vec(M.vec(rng.randrange(1, 7)))
        for x in (a, M.load_vec(M.vec(5)), a): M.op("pdiv", [x, a], d=True)
        out.append(M.case())
    return out

# ---------------------------------------------------------------- sparse vectors
def map_histories(rng, n, mod, length=60):
    """long histories of map operations on a few sparse vectors and their clones"""
    out = []
    for _ in range(n):
        M = Mach(rng, mod)
        M.load_spa({}); M.load_spa(M.sparse(40)); M.load_num(M.num())
        T = rng.choice([6, 16, 40, 100, 10**9])
        style = rng.choice(["any", "up", "down", "zigzag", "holes"])
        known = [0]
        for x in range(length):
            a = M.pick("s")
            if style == "any" or rng.random() < .3: k = rng.choice(known) if rng.random() < .5 else rng.randrange(T)
            elif style == "up": k = x
            elif style == "down": k = length - x
            elif style == "zigzag": k = x if x % 2 else 2 * length - x
            else: k = 7 * x % 61
            known.append(k)
            op = rng.choice(["ins", "ins", "ins", "putadd", "putadd", "insno", "putmul", "rem", "rem", "get", "has", "size", "max", "min", "maxp", "asc", "desc", "all", "tree", "tree",
                             "sclone", "s2p", "p2s", "swith", "scomb"])
            if style != "any" and op == "insno": op = "ins"
            if op in ("ins", "putadd", "insno", "putmul"):
                M.op(op, [a], k=k, v=M.num() if rng.random() < .8 else 0, d=True); M.regs[a] = ("s", max(M.regs[a][1], k))
            elif op in ("rem", "get", "has"): M.op(op, [a], k=k, d=True)
            elif op in ("size", "max", "min", "maxp", "asc", "desc", "all", "tree"): M.op(op, [a], d=True)
            elif op == "sclone":
                if len(M.regs) < 7: M.op(op, [a], out=[M.regs[a]])
            elif op == "s2p":
                a = M.pick("s", lambda x: x < 120)
                if a is not None:
                    L = M.regs[a][1] + 1
                    M.op(op, [a], k=L, out=[("p", L)])
            elif op == "p2s":
                a = M.pick("p")
                if a is not None: M.op(op, [a], out=[("s", M.regs[a][1])])
            elif op == "swith": M.op(op, [M.pick("n")], k=k, out=[("s", k)]) if k < 1000 else None
            elif op == "scomb":
                a = M.pick("s", lambda x: x < 60)
                if a is not None: M.op(op, [a, M.load_vec(M.vec(M.regs[a][1] + 1))], d=True)
        for a, (kind, _) in enumerate(M.regs):
            if kind == "s":
                for op in ("tree", "asc", "desc", "size"): M.op(op, [a], d=True)
        out.append(M.case())
    return out

# ----------------------------------------------------- concurrent enumeration
def schedules(r, cfg="AvlIterGen.cfg", extra=(), what=""):
    """the schedules TLC lists from AvlIter"""
    rc, out = core.tlc("AvlIter", cfg, workers="8" if not extra else "1", work=r.work, extra=extra)
    if rc != 0: raise core.Broken("AvlIter: " + core.tail(out))
    g, d = core.stats(out)
    r.states += d; r.transitions += g
    seen, res = set(), []
    for x in core.records(out):
        k = json.dumps(x["sched"])
        if k not in seen: seen.add(k); res.append(x["sched"])
    r.notes.setdefault("models", []).append(dict(module="AvlIter", what=what, states=d, transitions=g, schedules=len(res)))
    return res

def iterations(rng, scheds, size, per, race=False):
    out = []
    for ch in chunks(scheds, per):
        keys = sorted(rng.sample(range(40), size))
        ents = [[str(k), str(rng.randrange(1, 1000))] for k in keys]
        ins = ents[:]
        rng.shuffle(ins)
        q = dict(cmd="iter", e=ins, scheds=ch)
        mk = lambda rep, ents=ents, ch=ch: dict(e=ents, scheds=ch, rep=clean(rep, "res", "after"))
        out.append(core.Case("IterTrace", q, mk, weight=lambda rec: len(rec["scheds"]), timeout=120, race=race, tries=3,
                             sample=dict(entries=ents, schedules=ch[:3])))
    return out

READS = ["asc", "desc", "all", "size", "max", "min", "maxp", "get", "has", "tree", "sadd", "ssub", "smul", "sdiv", "sscale", "seval", "sdot", "sclone", "s2p", "slin", "ssum", "stransp", "sinterp",
         "padd", "pmul", "pdiv", "peval", "pinterp", "p2s", "ptransp", "pscale", "add", "mul", "inv"]
def parallel(rng, n, mod, g=6, reads=40, race=False, size=None):
    """several goroutines read the same vectors at once"""
    out = []
    for _ in range(n):
        M = Mach(rng, mod, own=rng.random() < .5)
        top = min(mod, 7)
        for _ in range(2): M.load_spa(M.sparse(top))
        M.load_spa({k: M.num() or 1 for k in range(size or rng.choice([5, 12, 25]))})
        for k in range(2): M.load_vec([M.num() for _ in range(rng.randrange(1, top + 1))])
        M.load_num(M.num() or 1)
        W = M.load_vec([M.num() for _ in range(31)])
        start = len(M.ops)
        for _ in range(reads):
            op = rng.choice(READS)
            a, b, x, p, q = M.pick("s"), M.pick("s"), M.pick("n"), M.pick("p", lambda k: k < 30), M.pick("p", lambda k: k < 30)
            if op in ("asc", "desc", "all", "size", "max", "min", "maxp", "tree", "sclone"): M.op(op, [a], d=True)
            elif op in ("get", "has"): M.op(op, [a], k=rng.randrange(12), d=True)
            elif op in ("sadd", "ssub", "smul", "sdiv"): M.op(op, [a, b], d=True)
            elif op in ("sscale", "seval"): M.op(op, [a, x], d=True)
            elif op == "sdot": M.op(op, [a, W], d=True)
            elif op == "s2p": M.op(op, [a], k=M.regs[a][1] + 1, d=True)
            elif op == "slin": (M.op(op, [a, p], k=1, d=True) if M.regs[p][1] == 1 else None)
            elif op == "ssum": M.op(op, [a, b, a], k=3, d=True)
            elif op == "stransp": M.op(op, [a, b], k=2, j=40, d=True)
            elif op == "sinterp":
                a = M.pick("s", lambda k: k < top)
                if a is not None: M.op(op, [a], k=top, d=True)
            elif op in ("padd", "pmul", "pdiv"): M.op(op, [p, q], d=True)
            elif op in ("peval", "pscale"): M.op(op, [p, x], d=True)
            elif op == "pinterp" and M.regs[p][1] <= top: M.op(op, [p], d=True)
            elif op == "p2s": M.op(op, [p], d=True)
            elif op == "ptransp": M.op(op, [p, p], k=2, d=True)
            elif op in ("add", "mul"): M.op(op, [x, x], d=True)
            elif op == "inv": M.op(op, [x], d=True)
        req = dict(cmd="machpar", mod=str(mod), own=M.own, prog=M.ops, g=g, **{"from": start})
        def mk(rep):
            prog = [{k: (v if v is not None else []) for k, v in o.items()} for o in rep.get("prog") or []]
            return dict(m=str(mod), prog=prog, rep=clean(rep, "evs"))
        out.append(core.Case("MachTrace", req, mk, weight=lambda rec: len(rec["prog"]), timeout=60, race=race, tries=6,
                             sample=dict(mod=str(mod), goroutines=g, operations=M.ops[start:start + 6])))
    return out
