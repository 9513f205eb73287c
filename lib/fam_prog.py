"""Program conformance: random programs through compiler and solvers."""
import itertools, random
import core, lang, values
from lang import *

KEYS = ("inputs", "public", "npublic", "gates", "wlen", "sgates", "swlen", "rows", "srows", "runs", "combos", "kept", "plain", "splain")

def prog_record(top, req, m, small, share):
    def mk(rep):
        rp = dict(crash=rep["crash"], timeout=rep["timeout"], err=rep["err"])
        for k in KEYS:
            if k in rep: rp[k] = rep[k]
        for r in rp.get("runs", []) + rp.get("combos", []):
            for f in ("d", "s"): r[f].pop("msg", None)
            r.pop("in", None)
        return dict(top=top, m=str(m), small=small, share=share, ins=req["inputs"], combos=req.get("combos", []), rnd=bool(req.get("randomize")), rep=rp)
    return mk

def case(top, ins, m, rng, small, share=False, src=None):
    req = dict(cmd="prog", src=src or lang.source(top, rng), inputs=ins, order=rng.choice(["ds", "sd", "apart"]), transpose=True)
    rows = max(1, len(ins))
    return core.Case("ProgTrace", req, prog_record(top, req, m, small, share), mod=(m if m != core.R else ""),
                     weight=lambda rec: rows * (4 + len(rec["rep"].get("rows", []))),
                     nontrivial=lambda rec: len(rec["rep"].get("rows", [])) > 0 or rec["rep"]["err"] != "",
                     key=req["src"], sample=dict(program=req["src"], modulus=str(m), inputs=len(ins)))

def blinded(cases):
    """the same programs, compiled with a blinding gate"""
    for c in cases:
        c.req["randomize"] = True
    return cases

def all_inputs(n, m): return [[str(v) for v in t] for t in itertools.product(range(m), repeat=n)]

def has(top, kind):
    def walk(x):
        if isinstance(x, dict): return x.get("k") == kind or any(walk(v) for v in x.values())
        if isinstance(x, list): return any(walk(v) for v in x)
        return False
    return walk(top)

def small(rng, n, m, w=None, nin=2, size=(2, 5), depth=3, gates=(1, 14), want=lambda t: True, tweak=None, budget=400, repeats=False, share=False, small=True):
    """n programs over the field of m elements, with all input vectors."""
    out = []
    while len(out) < n:
        k = nin if isinstance(nin, int) else rng.choice(nin)
        g = lang.Gen(rng, m, w, k, depth)
        g.repeats = repeats
        top = g.program(rng.randrange(*size))
        if tweak: top = tweak(rng, top, g)
        try:
            it = [lang.interpret(top, [rng.randrange(1, m) for _ in lang.main_of(top)["p"]], m) for _ in range(2)]
        except (lang.IllFormed, lang.Stop, RecursionError):
            continue
        if not gates[0] <= it[0].gates <= gates[1]: continue
        if not want(top): continue
        ins = all_inputs(len(lang.main_of(top)["p"]), m)
        if len(ins) > budget: ins = rng.sample(ins, budget)
        out.append(case(top, ins, m, rng, small, share))
    return out

EDGE = [0, 1, 2, 3, R - 1, R - 2, 2**32, 2**63, 2**64 - 1, 2**64, 2**64 + 1, 2**128 + 7, (R - 1) // 2, (R + 1) // 2]
def value(rng):
    x = rng.random()
    if x < .25: return rng.choice(EDGE)
    if x < .5: return values.limbs(rng)
    if x < .7: return rng.randrange(1, 2000)
    return rng.randrange(R)
def unreduced(rng, v):
    """the same field element, handed over differently"""
    x = rng.random()
    if x < .06: return v + R
    if x < .12: return v - R
    return v

def large(rng, n, w=None, nin=2, size=(2, 6), depth=3, gates=(1, 40), want=lambda t: True, vectors=4, tweak=None, repeats=False, share=False):
    """n programs over the real field, whose results are compared with further inputs."""
    out = []
    while len(out) < n:
        k = nin if isinstance(nin, int) else rng.choice(nin)
        g = lang.Gen(rng, R, w, k, depth)
        g.repeats = repeats
        g.outs = []
        top = g.program(rng.randrange(*size))
        if tweak: top = tweak(rng, top, g)
        if not g.outs or not want(top): continue
        names = lang.main_of(top)["p"]
        vecs = []
        try:
            for q in range(vectors):
                v = {x: value(rng) for x in names}
                it = lang.interpret(top, [v[x] for x in names], R)
                for x, (l, _) in zip(g.outs, it.eqs): v[x] = l
                if q == vectors - 1:
                    x = rng.choice(g.outs)
                    v[x] = (v[x] + rng.choice([1, R - 1, 2**64, 2**128, rng.randrange(1, R), values.limbs(rng) or 1])) % R
                vecs.append([str(unreduced(rng, v[x])) for x in names])
        except (lang.IllFormed, lang.Stop, RecursionError):
            continue
        if not gates[0] <= it.gates <= gates[1]: continue
        out.append(case(top, vecs, R, rng, False, share))
    return out

# ---------------------------------------------------------- parameter lists
def expand(n, dims):
    return [n + "".join("[%d]" % i for i in t) for t in itertools.product(*[range(d) for d in dims])]

def layout(rng, n, m, small=True, wrong=.5):
    out = []
    while len(out) < n:
        shapes = []
        for i in range(rng.randrange(1, 5)):
            d = rng.choice([(), (), (1,), (2,), (3,), (2, 2), (1, 2), (2, 1, 2), (2, 3), (11,)]) if m == R or rng.random() < .4 else ()
            shapes.append((rng.choice(["x", "y", "in", "Zeta", "b", "A"]) + str(i), d))
        params = [p for nm, d in shapes for p in expand(nm, d)]
        if len(params) > 14: continue
        g = lang.Gen(rng, m, dict(fn=1.5, iff=1, loop=1, eq=3 if m != R else 0), 0, 2)
        g.params = shapes
        g.taken |= {nm for nm, _ in shapes}
        top = g.program(rng.randrange(1, 4))
        mn = lang.main_of(top)
        mn["p"], mn["h"] = params, [nm + "".join("[%d]" % q for q in d) for nm, d in shapes]
        pub = rng.sample(params, rng.randrange(0, len(params) + 1)) if rng.random() < .85 else []
        if pub:
            body = mn["b"]
            at = 0 if rng.random() < .6 else rng.randrange(0, len(body) + (0 if body and body[-1]["k"] == "ret" else 1)) if body else 0
            if len(pub) > 1 and rng.random() < .15:
                k = rng.randrange(1, len(pub))
                body.insert(at, public(pub[k:])); body.insert(at, public(pub[:k]))
            else: body.insert(at, public(pub))
        vecs = [[value(rng) if m == R else rng.randrange(m) for _ in params] for _ in range(4 if m == R else 12)]
        try: it = [lang.interpret(top, v, m) for v in vecs[:2]]
        except (lang.IllFormed, lang.Stop, RecursionError): continue
        if it[0].gates > 14: continue
        if m == R: vecs = [[unreduced(rng, v) for v in q] for q in vecs]
        elif rng.random() < .3: vecs = [[v + m * rng.choice([0, 1, -1, 5]) for v in q] for q in vecs]
        vecs = [[str(v) for v in q] for q in vecs]
        c = case(top, vecs, m, rng, small)
        combos = []
        perm = list(range(len(params))); rng.shuffle(perm)
        combos.append(dict(names=[params[i] for i in perm], vals=[vecs[0][i] for i in perm], of=1))
        k = rng.randrange(len(params))
        combos.append(dict(names=params, vals=vecs[0][:k] + vecs[0][k + 1:], of=0))
        combos.append(dict(names=params, vals=vecs[0] + ["1"], of=0))
        combos.append(dict(names=params + ["unknown"], vals=vecs[0] + ["1"], of=0))
        q = list(params); q[k] = "unknown"
        combos.append(dict(names=q, vals=vecs[0], of=0))
        # one input is not given, one is given twice, a wire is given that is no input
        combos.append(dict(names=params[:k] + params[k + 1:], vals=vecs[0][:k] + vecs[0][k + 1:], of=0))
        combos.append(dict(names=params + [params[k]], vals=vecs[0] + [rng.choice([vecs[0][k], vecs[1][k], "7"])], of=0))
        combos.append(dict(names=["1"] + params, vals=["2"] + vecs[0], of=0))
        combos.append(dict(names=["1"] + params, vals=["1"] + vecs[0], of=1))
        combos.append(dict(names=params + ["$gate"], vals=vecs[0] + ["1"], of=0))
        c.req["combos"] = combos
        out.append(c)
    return out

# ------------------------------------------------------------------ splitting
def splits(rng, top, g):
    """adds SPLIT statements on inputs and on products"""
    mn = lang.main_of(top)
    body = mn["b"]
    last = len(body) - (1 if body and body[-1]["k"] == "ret" else 0)
    def place(st):
        at = rng.randrange(0, last + 1)
        body[at:at] = st
    ins = [x for x in mn["p"] if x not in (g.outs or ())]
    agc = False
    for i in range(rng.choice([1, 1, 2, 2, 3])):
        x = rng.random() * (.85 if agc else 1)
        agc = agc or x >= .85
        if x < .45: 
            q = rng.choice(ins)
            place([split(var(q))])
            # and the one whose name looks like one of its bits
            for o in ins:
                if o != q and (o.startswith(q) or q.startswith(o)) and rng.random() < .5: place([split(var(o))])
        elif x < .85:
            l, r = rng.choice(ins), rng.choice(ins)
            e = bn(rng.choice("**/"), var(l), var(r)) if rng.random() < .7 else bn("*", bn("+", var(l), num(rng.randrange(3))), bn("-", var(r), num(rng.randrange(3))))
            st = [svar("s%d" % i, e), split(var("s%d" % i))]
            if rng.random() < .2: st.append(split(e))
            place(st)
        elif x < .93: place([split(call("addGateConstraint", var(rng.choice(ins)), num(rng.randrange(3))))])
        else: place([split(rng.choice([num(3), bn("*", num(2), var(rng.choice(ins))), bn("+", var(ins[0]), num(1))]))])
    return top

# ------------------------------------------------------------- look-alikes
def lookalikes(rng, n, m, vectors=12):
    """products and quotients next to others which differ in a coefficient, a name, a sign, the place of a summand, the operation ..."""
    out = []
    while len(out) < n:
        g = lang.Gen(rng, m)
        g.protected, g.counters = set(), set()
        g.tricky = rng.random() < .75
        k = rng.randrange(2, 5)
        ins = g.chain(k) if g.tricky else ["x%d" % i for i in range(k)]
        sc = lang.g2(None, ins)
        cf = lambda: rng.choice([1, 1, 1, 2, 3, 10, 11, 12, 21, 111, m - 1]) % m or 1
        def lin():
            t = rng.sample(ins, min(k, rng.choice([1, 2, 2, 3])))
            t = [(cf(), x) for x in t]
            if rng.random() < .35: t.insert(rng.randrange(len(t) + 1), (cf(), None))
            return t
        def text(t):
            e = None
            for c, x in t:
                q = num(c) if x is None else var(x) if c == 1 and rng.random() < .9 else bn("*", num(c), var(x)) if rng.random() < .8 else bn("*", var(x), num(c))
                if x is not None and c == m - 1 and e is not None and rng.random() < .5: e = bn("-", e, var(x))
                else: e = q if e is None else bn("+", e, q)
            return e
        def mutate(o):
            op, a, b = o[0], list(o[1]), list(o[2])
            for _ in range(rng.choice([1, 1, 2])):
                x = rng.random()
                t = rng.choice([a, b])
                i = rng.randrange(len(t))
                c, v = t[i]
                if x < .35 and v is not None:
                    opts = [(int(v[len(q):] + str(c)) % m, q) for q in ins if q != v and v.startswith(q) and v[len(q):].isdigit() and v[len(q)] != "0"]
                    opts += [(int(str(c)[len(q) - len(v):] or 1), q) for q in ins if q != v and q.startswith(v) and str(c).startswith(q[len(v):])]
                    opts = [(e, q) for e, q in opts if e and all(q != y for _, y in t)]
                    if opts: t[i] = rng.choice(opts)
                elif x < .45: t[i] = (cf(), v)
                elif x < .55 and len(t) > 1:
                    j = rng.randrange(len(t))
                    t[i], t[j] = (t[j][0], v), (c, t[j][1])
                elif x < .65: t[i] = ((m - c) % m or 1, v)
                elif x < .75 and len(t) > 1:
                    u = b if t is a else a
                    if all(y != v for _, y in u): u.append(t.pop(i))
                elif x < .82:
                    q = rng.choice(ins)
                    if all(y != q for _, y in t): t[i] = (c, q)
                elif x < .9: op = rng.choice("*/ae")
                else: a, b = b, a
            return op, a, b
        def same(o):
            op, a, b = o[0], list(o[1]), list(o[2])
            rng.shuffle(a); rng.shuffle(b)
            if op == "*" and rng.random() < .5: a, b = b, a
            return op, a, b
        ops, body, outs = [], [], []
        for _ in range(rng.randrange(2, 6)):
            if ops and rng.random() < .85: o = (mutate if rng.random() < .75 else same)(rng.choice(ops))
            else: o = ("/" if rng.random() < .25 else "*", lin(), lin())
            ops.append(o)
            op, a, b = o
            if op == "/" and len(b) == 1 and b[0][1] is None and b[0][0] % m == 0: continue
            l, r = text(a), text(b)
            if op == "e":
                if m != R or rng.random() < .7: continue
                e = bn("+", l, r)
            elif op == "a": e = call("addGateConstraint", l, r)
            else: e = bn(op, l, r)
            if m == R:
                q = g.fresh("out"); outs.append(q); body.append(seq(e, var(q)) if rng.random() < .7 else seq(var(q), e))
            elif rng.random() < .5: body.append(seq(e, var(rng.choice(ins))))
            else:
                q = g.fresh("v"); body.append(svar(q, e)); outs.append(q)
        if m != R:
            for q in outs: body.append(seq(var(q), text(lin())))
            names = ins
        else: names = ins + outs
        if not body: continue
        top = [func("main", names, body)]
        try:
            if m == R:
                vecs = []
                for q in range(4):
                    v = {x: value(rng) for x in names}
                    it = lang.interpret(top, [v[x] for x in names], R)
                    for (l, r), s in zip(it.eqs, body):
                        x = s["r"]["n"] if s["r"]["k"] == "var" and s["r"]["n"] in outs else s["l"]["n"]
                        v[x] = l if s["r"]["k"] == "var" and s["r"]["n"] in outs else r
                    if q == 3:
                        x = rng.choice(outs)
                        v[x] = (v[x] + rng.choice([1, R - 1])) % R
                    vecs.append([str(v[x]) for x in names])
            else:
                vecs = all_inputs(len(names), m) if m ** len(names) <= vectors else [[str(rng.randrange(m)) for _ in names] for _ in range(vectors)]
                it = lang.interpret(top, [int(x) for x in vecs[0]], m)
        except (lang.IllFormed, lang.Stop, RecursionError, KeyError): continue
        out.append(case(top, vecs, m, rng, False if m > 7 else True, True))
    return out
