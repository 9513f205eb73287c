"""Constraint systems, the polynomials made from them, keys, proofs and verdicts."""
import json
import core, lang, values
import fam_prog as P

R = core.R

# ------------------------------------------------------------ random systems
def coef(rng, m):
    x = rng.random()
    if m != R: return rng.randrange(1, m)
    if x < .5: return rng.choice([1, 1, 1, R - 1, 2, 3, R - 2, 2**64, 2**128 + 1])
    if x < .7: return values.limbs(rng) or 1
    return rng.randrange(1, R)

def cells(rng, n, m, lo=0, hi=3, avoid=()):
    ks = [k for k in range(n) if k not in avoid]
    ks = rng.sample(ks, min(len(ks), rng.randrange(lo, hi + 1)))
    return [[k, coef(rng, m)] for k in ks]

def dot(cs, w, m): return sum(c * w[k] for k, c in cs) % m

def g1x(k):
    import fam_grp as G
    P_ = G.P
    k %= R
    if k == 0: return 0
    r, q = None, (1, 2)
    def add(a, b):
        if a is None: return b
        if b is None: return a
        if a[0] == b[0]:
            if a[1] != b[1]: return None
            l = 3 * a[0] * a[0] * pow(2 * a[1], P_ - 2, P_) % P_
        else: l = (b[1] - a[1]) * pow(b[0] - a[0], P_ - 2, P_) % P_
        x = (l * l - a[0] - b[0]) % P_
        return (x, (l * (a[0] - x) - a[1]) % P_)
    while k:
        if k & 1: r = add(r, q)
        q = add(q, q)
        k >>= 1
    return r[0] % R

def system(rng, m, n, wlen, expo=0.0, density=3):
    """n rows over wlen wires and a vector which satisfies them"""
    w = [1] + [rng.choice([0, 1, rng.randrange(m), values.limbs(rng, m)]) for _ in range(wlen - 1)]
    rows = []
    for g in range(n):
        while True:
            L, Rr = cells(rng, wlen, m, 0, density), cells(rng, wlen, m, 0, density)
            E = cells(rng, wlen, m, 1, 2) if rng.random() < expo else []
            v = (dot(L, w, m) * dot(Rr, w, m) + (g1x(dot(E, w, m)) if E else 0)) % m
            O = cells(rng, wlen, m, 0, max(0, density - 1))
            miss = (v - dot(O, w, m)) % m
            if miss:
                ks = [k for k in range(wlen) if w[k] and k not in [c[0] for c in O]]
                if not ks: continue
                k = rng.choice(ks)
                O.append([k, miss * pow(w[k], m - 2, m) % m])
            O = [[k, c % m] for k, c in O]
            if L or Rr or O or E: break
            if rng.random() < .3: break
        rows.append(dict(L=L, R=Rr, E=E, O=O))
    return rows, w

def show(rows): return [{x: [[k, str(c)] for k, c in sorted(r[x])] for x in "LREO"} for r in rows]

def neighbours(rng, w, m, n):
    """vectors near a witness"""
    out = []
    for _ in range(n):
        v = list(w)
        x = rng.random()
        if x < .6:
            k = rng.randrange(len(w))
            v[k] = (v[k] + rng.choice([1, m - 1, rng.randrange(1, m)])) % m if rng.random() < .7 else values.twin(rng, v[k], m)
        elif x < .75: v = [rng.randrange(m) for _ in w]
        elif x < .85: v = [0] * len(w)
        else:
            i, j = rng.randrange(len(w)), rng.randrange(len(w))
            v[i], v[j] = v[j], v[i]
        out.append(v)
    return out

def qap_case(req, vectors, m):
    req = dict(req, cmd="qap", vectors=[[str(x) for x in v] for v in vectors])
    keys = ("rows", "gates", "wlen", "npub", "dt", "st", "dp", "sp", "domain", "outs", "kept")
    def mk(rep):
        rp = dict(crash=rep["crash"], timeout=rep["timeout"], err=rep["err"], refused=rep.get("refused", False))
        for k in keys:
            if k in rep: rp[k] = rep[k]
        return dict(m=str(m), vectors=req["vectors"], rep=rp)
    return core.Case("QapTrace", req, mk, mod=(m if m != R else ""), timeout=40,
                     weight=lambda rec: 1 + len(rec["rep"].get("rows", [])) ** 2 * rec["rep"].get("wlen", 1),
                     sample=dict(system=req.get("src") or req["rows"], modulus=str(m), vectors=len(vectors)))

def qaps(rng, n, m, size=(1, 8), wires=(1, 7), expo=0.0, vectors=4):
    out = []
    for _ in range(n):
        g = rng.randrange(size[0], min(size[1], m) + 1)
        k = rng.randrange(wires[0], wires[1] + 1)
        e = expo if rng.random() < .5 else 0
        rows, w = system(rng, m, g, k, e, rng.choice([1, 2, 3, 5]))
        vs = [w] + neighbours(rng, w, m, vectors - 1)
        rng.shuffle(vs)
        out.append(qap_case(dict(rows=show(rows), wlen=k, npub=1), vs, m))
    return out

def program_qaps(rng, n, m=R, expo=False):
    """systems of compiled programs, with the solver's vectors and vectors next to them"""
    w = dict(sbm=.35, fn=2) if expo else None
    out = []
    if m == R: ps = P.large(rng, n, w, gates=(1, 12), size=(1, 4), want=lambda t: not P.has(t, "split"))
    else: ps = P.small(rng, n, m, w, gates=(1, min(12, m)), size=(1, 4), want=lambda t: not P.has(t, "split"), budget=4)
    for c in ps: out.append(qap_case(dict(src=c.req["src"], inputs=c.req["inputs"], twist=rng.randrange(20)), [], m))
    return out

# --------------------------------------------------------------- the scheme
class Layered:
    """rows which compute one wire after another, so that any inputs have a witness"""
    def __init__(s, rng, gates, nin, density=3, checks=0.2):
        s.rng = rng
        s.wlen = 1 + nin + gates
        order = list(range(1, s.wlen)); rng.shuffle(order)
        s.ins, new = order[:nin], order[nin:]
        known = [0] + s.ins
        s.rows, s.steps = [], []
        for g in range(gates):
            pick = lambda lo, hi: [[k, coef(rng, R)] for k in rng.sample(known, min(len(known), rng.randrange(lo, hi + 1)))]
            L, Rr, O = pick(1, density), pick(1, density), pick(0, density - 2)
            t = new[g]
            c = coef(rng, R)
            s.rows.append(dict(L=L, R=Rr, E=[], O=O + [[t, c]]))
            s.steps.append((len(s.rows) - 1, t, c))
            known.append(t)
            if rng.random() < checks: # something that holds anyway
                s.rows.append(dict(L=L, R=[[k, x * 2 % R] for k, x in Rr], E=[], O=[[k, x * 2 % R] for k, x in O + [[t, c]]]))
        s.npub = rng.randrange(1, s.wlen)
    def solve(s, vals=None):
        w = [0] * s.wlen
        w[0] = 1
        for k in s.ins: w[k] = P.value(s.rng)
        for i, t, c in s.steps:
            r = s.rows[i]
            v = (dot(r["L"], w, R) * dot(r["R"], w, R) - dot([x for x in r["O"] if x[0] != t], w, R)) % R
            w[t] = v * pow(c, R - 2, R) % R
        return w

class Script:
    """events, with the numbers of the registers they make"""
    def __init__(s, rng, npub):
        s.rng, s.npub, s.evs, s.nk, s.nw, s.np, s.par = rng, npub, [], 0, 0, 0, None
    def ev(s, **kw):
        (s.evs if s.par is None else s.par).append(kw)
    def setup(s, mode): s.ev(op="setup", mode=mode); s.nk += 1; return s.nk - 1
    def given(s, w): s.ev(op="vec", w=-1, vals=[str(x) for x in w]); s.nw += 1; return s.nw - 1
    def changed(s, w, st): s.ev(op="vec", w=w, set=[[i, str(v)] for i, v in st]); s.nw += 1; return s.nw - 1
    def wit(s, vals, mode): s.ev(op="wit", vals=vals, mode=mode); s.nw += 1; return s.nw - 1
    def prove(s, key, w, wp=None, mode="d"): s.ev(op="prove", key=key, w=w, wp=w if wp is None else wp, mode=mode); s.np += 1; return s.np - 1
    def tamper(s, p, el, how, q=0, el2="", key=0, k="0"): s.ev(op="tamper", p=p, el=el, how=how, q=q, el2=el2, key=key, k=str(k)); s.np += 1; return s.np - 1
    def verify(s, key, p, sig): s.ev(op="verify", key=key, p=p, vals=[str(x) for x in sig])
    def together(s, f):
        s.par = []
        f()
        s.evs.append(dict(op="par", evs=s.par))
        s.par = None

def flat(evs): return [x for e in evs for x in (e["evs"] if e.get("op") == "par" else [e])]

def scheme_case(req, script, race=False, cost=1):
    req = dict(req, cmd="snark", evs=script.evs)
    plan = flat(script.evs)
    def mk(rep):
        rp = dict(crash=rep["crash"], timeout=rep["timeout"], err=rep["err"], refused=rep.get("refused", False))
        for k in ("rows", "gates", "wlen", "npub"):
            if k in rep: rp[k] = rep[k]
        evs = []
        for e in rep.get("evs", []): evs += e["evs"] if "evs" in e else [e]
        for e in evs: e.pop("msg", None)
        rp["evs"] = evs
        return dict(evs=plan, npub=script.npub, rep=rp)
    return core.Case("SnarkTrace", req, mk, timeout=120, race=race, tries=3 if race else 1,
                     weight=lambda rec: (2 + len(rec["rep"].get("rows", []))) * (1 + len(plan)),
                     sample=dict(system=req.get("src") or req["rows"], public=script.npub, events=plan[-4:]))

def circuit(rng, gates=(1, 7)):
    """a system, and a source of witnesses: each a list of the events that make it and its public part"""
    if rng.random() < .5:
        c = Layered(rng, rng.randrange(gates[0], gates[1]), rng.randrange(1, 4), rng.choice([2, 3]))
        req = dict(rows=show(c.rows), wlen=c.wlen, npub=c.npub)
        def more(s):
            w = c.solve()
            return s.given(w), w[:c.npub], w
        return req, c.npub, more, c.wlen
    while True:
        pubs = []
        def tweak(r_, top, g):
            mn = lang.main_of(top)
            pubs[:] = []
            if mn["p"] and r_.random() < .9:
                pubs[:] = r_.sample(mn["p"], r_.randrange(1, len(mn["p"]) + 1))
                mn["b"].insert(0, lang.public(list(pubs)))
            return top
        got = P.large(rng, 1, None, gates=(1, 9), size=(1, 4), vectors=5, tweak=tweak, nin=(1, 2, 3),
                      want=lambda t: not P.has(t, "split") and '"scalarBaseMultiply"' not in json.dumps(t))
        if got: break
    c = got[0]
    names = NAMES(c.req["src"])
    vecs = c.req["inputs"][:-1] # the last one satisfies nothing
    def more(s):
        v = rng.choice(vecs)
        val = dict(zip(names, v))
        return s.wit(v, rng.choice("ds")), [1] + [int(val[x]) for x in pubs], None
    return dict(src=c.req["src"]), len(pubs) + 1, more, None

def NAMES(src):
    """the parameters of main"""
    k = src.index("func main(") + len("func main(")
    return [x.strip() for x in src[k:src.index(")", k)].split(",") if x.strip()]

def honest(rng, n, race=False, gates=(1, 7)):
    out = []
    for _ in range(n):
        req, npub, more, _w = circuit(rng, gates)
        s = Script(rng, npub)
        s.setup(rng.choice("ds"))
        ws = [more(s) for _ in range(rng.randrange(1, 3))]
        def proofs():
            for w, sig, _ in ws:
                for m in rng.sample("ds", rng.choice([1, 2])): made.append((0, s.prove(0, w, mode=m), sig))
        made = []
        if race:
            s.together(lambda: (s.setup("d"), s.setup("s"), proofs(), proofs()))
            if rng.random() < .5: s.together(lambda: [s.verify(k, p, sig) for k, p, sig in made])
            else:
                for k, p, sig in made: s.verify(k, p, sig)
        else:
            proofs()
            for k, p, sig in made: s.verify(k, p, sig)
            if rng.random() < .6: # another key, more proofs, and the first ones again
                k2 = s.setup(rng.choice("ds"))
                w, sig, _ = more(s)
                p2 = s.prove(k2, w, mode=rng.choice("ds"))
                s.verify(k2, p2, sig)
                k, p, sg = made[0]
                s.verify(k, p, sg)
                s.verify(k, s.prove(0, w, mode=rng.choice("ds")), sig)
        out.append(scheme_case(req, s, race))
    return out

def signals(rng, sig, others):
    """public signals next to the right ones"""
    s = list(sig)
    x = rng.random()
    if x < .35:
        k = rng.randrange(len(s)) if rng.random() < .5 else rng.randrange(min(1, len(s) - 1), len(s))
        s[k] = values.twin(rng, s[k]) if rng.random() < .4 else s[k] + rng.choice([1, -1, 2, rng.randrange(1, R)])
    elif x < .45 and len(s) > 1:
        i, j = rng.sample(range(len(s)), 2)
        s[i], s[j] = s[j], s[i]
    elif x < .55: s = s[:-1]
    elif x < .65: s = s + [rng.choice([0, 1, s[-1]])]
    elif x < .72: s = []
    elif x < .82:
        k = rng.randrange(len(s)); s[k] += rng.choice([R, -R, 5 * R])
    elif x < .9: s = [0] * len(s)
    else: s = list(rng.choice(others))
    return s

def hostile(rng, n):
    """damaged proofs, other signals, other keys"""
    out = []
    for _ in range(n):
        req, npub, more, _w = circuit(rng, (1, 6))
        s = Script(rng, npub)
        ks = [s.setup(rng.choice("ds")), s.setup(rng.choice("ds"))]
        ws = [more(s), more(s)]
        prs = [(s.prove(k, w, mode=rng.choice("ds")), k, sig) for k, (w, sig, _) in ((0, ws[0]), (0, ws[1]), (1, ws[0]))]
        p, k, sig = prs[0]
        s.verify(k, p, sig)
        others = [x[2] for x in prs]
        for _ in range(rng.randrange(3, 6)):
            p, k, sig = rng.choice(prs)
            x = rng.random()
            if x < .12: s.verify(1 - k, p, sig)
            elif x < .42: s.verify(k, p, signals(rng, sig, others))
            else:
                t = p
                for _ in range(rng.choice([1, 1, 1, 2])):
                    el = rng.choice("ABCCF")
                    if el == "B": how = rng.choice(["swap", "mul", "add", "set", "key"])
                    else: how = rng.choice(["swap", "swap", "neg", "mul", "add", "set", "key"])
                    q = rng.choice(prs)[0]
                    el2 = "B" if el == "B" else rng.choice([el, el, "A", "C", "F"])
                    if how == "key": el2 = rng.choice(["beta", "gamma", "delta"] if el == "B" else ["alpha", "beta", "delta"])
                    t = s.tamper(t, el, how, q=q, el2=el2, key=rng.randrange(2), k=rng.choice([0, 1, -1, 2, R - 1, R, rng.randrange(R), values.limbs(rng), 2**64 + 1]))
                s.verify(k, t, sig)
        out.append(scheme_case(req, s))
    return out

def dishonest(rng, n):
    """vectors which are no witness, or not the one the quotient is made from"""
    out = []
    for _ in range(n):
        req, npub, more, wl = circuit(rng, (1, 6))
        s = Script(rng, npub)
        k = s.setup(rng.choice("ds"))
        (w, sig, vec), (w2, sig2, _) = more(s), more(s)
        for _ in range(rng.randrange(2, 5)):
            x, v = rng.random(), w
            sg = list(sig)
            if x < .55:
                i, dlt = (rng.randrange(wl) if wl and rng.random() < .9 else rng.randrange(50)), rng.choice([1, R - 1, rng.randrange(1, R), values.limbs(rng) or 1])
                v = s.changed(w, [(i, dlt)])
                if i < npub: sg[i] += dlt # the claim of the one who made this vector
            elif x < .7: v = s.changed(w, [(-1, 0)])
            elif x < .8: v = s.changed(w, [(-2, rng.choice([0, 1]))])
            elif x < .9 and wl: v = s.given([1] + [rng.randrange(R) for _ in range(wl - 1)]); sg = None
            y = rng.random()
            wp = v if y < .5 else rng.choice([w, w2])
            if y > .9: v, wp, sg = w, v, list(sig)
            p = s.prove(k, v, wp, mode=rng.choice("ds"))
            if sg is not None: s.verify(k, p, sg)
            if rng.random() < .3: s.verify(k, p, sig)
        out.append(scheme_case(req, s))
    return out

# ---------------------------------------- what TLC lists from the scheme's model
def schedules(r, bound, cfg="Wol19Gen.cfg", extra=(), what=""):
    rc, o = core.tlc("Wol19MC", cfg, dict(BOUND=bound), workers="1" if extra else "8", work=r.work, extra=extra, heap="6000m")
    if rc != 0: raise core.Broken("Wol19MC: " + core.tail(o))
    g, d = core.stats(o)
    if extra: g = d = 0
    r.states += d; r.transitions += g
    sch = {json.dumps(x["sched"]): x["sched"] for x in core.records(o)}
    r.notes.setdefault("models", []).append(dict(module="Wol19MC", what=what, states=d, transitions=g, schedules=len(sch)))
    return [sch[k] for k in sorted(sch)]

def replay(rng, scheds, per=3):
    """schedules of the model, with other circuits, keys and witnesses"""
    out = []
    for at in range(0, len(scheds), per):
        req, npub, more, wl = circuit(rng, (1, 5))
        s = Script(rng, npub)
        modes = rng.choice(["dd", "ds", "sd", "ss"])
        for m in modes: s.setup(m)
        (g1, sig1, _), (g2, sig2, _) = more(s), more(s)
        k, dlt = rng.randrange(wl or 30), rng.choice([1, R - 1, rng.randrange(1, R), values.limbs(rng) or 1])
        b = s.changed(g1, [(k, dlt)])
        wit = dict(g1=g1, g2=g2, b=b)
        sigs = [sig1, sig2, signals(rng, sig1, [sig1, sig2])]
        for sch in scheds[at:at + per]:
            base = s.np
            for e in sch:
                if e[0] == "prove": s.prove(e[1], wit[e[2]], wit[e[3]], mode=rng.choice("ds"))
                else:
                    _, p, el, how, q, el2, j, x = e
                    s.tamper(base + p, el, how, q=base + q, el2=el2, key=j, k=x)
            last = s.np - 1
            first = sch[0]
            s.verify(first[1], last, sig2 if first[2] == "g2" else sig1)
            for _ in range(1): s.verify(rng.randrange(2), last, rng.choice(sigs))
        out.append(scheme_case(req, s))
    return out

# ------------------------------------------------------------------- the keys
def keys(rng, n, expo=.3, par=.2, race=False):
    out = []
    for _ in range(n):
        if rng.random() < expo:
            g, k = rng.randrange(1, 6), rng.randrange(2, 6)
            rows, w = system(rng, R, g, k, .4)
            npub = rng.randrange(1, k)
            req = dict(rows=show(rows), wlen=k, npub=npub)
        else: req, npub, _m, _w = circuit(rng, (1, 7))
        modes = rng.choice(["d", "s", "ds", "sd"])
        s = Script(rng, npub)
        if len(modes) == 2 and rng.random() < par: s.together(lambda: [s.setup(m) for m in modes])
        else:
            for m in modes: s.setup(m)
        for e in flat(s.evs): e["full"] = True
        c = scheme_case(req, s, race=race)
        c.module = "CrsTrace"
        c.weight = lambda rec: sum(10 + len(rec["rep"].get("rows", [])) ** 2 / 10 + rec["rep"].get("wlen", 0) for e in rec["rep"]["evs"])
        out.append(c)
    return out
