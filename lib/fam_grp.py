"""The register machine over the groups of the pairing."""
import json
import core, values
from fam_alg import clean, chunks

R = core.R
P = 21888242871839275222246405745257275088696311157297823662689037894645226208583
COUNT = {"1": 2, "2": 4, "T": 12}

# ---- points of the curves that nobody knows an exponent of; generators only, TLC judges
def f2(a, b): # numbers (im, re)
    return ((a[0] * b[1] + a[1] * b[0]) % P, (a[1] * b[1] - a[0] * b[0]) % P)
def f2pow(a, k):
    r = (0, 1)
    while k:
        if k & 1: r = f2(r, a)
        a, k = f2(a, a), k >> 1
    return r
def f2inv(a):
    n = pow(a[0] * a[0] + a[1] * a[1], P - 2, P)
    return (-a[0] * n % P, a[1] * n % P)
def f2add(a, b): return ((a[0] + b[0]) % P, (a[1] + b[1]) % P)
def f2sub(a, b): return ((a[0] - b[0]) % P, (a[1] - b[1]) % P)
B2 = f2((0, 3), f2inv((1, 9)))
def f2sqrt(a):
    if a == (0, 0): return a
    # p = 3 mod 4
    a1 = f2pow(a, (P - 3) // 4)
    al = f2(f2(a1, a1), a)
    x0 = f2(a1, a)
    if al == (0, P - 1): x = f2((1, 0), x0)
    else: x = f2(f2pow(f2add((0, 1), al), (P - 1) // 2), x0)
    return x if f2(x, x) == a else None
def g1_point(rng):
    while True:
        x = rng.randrange(P)
        y = pow(x ** 3 + 3, (P + 1) // 4, P)
        if (y * y - x ** 3 - 3) % P == 0: return [x, rng.choice([y, P - y])]
def twist_point(rng, small=False):
    while True:
        x = (rng.randrange(9), rng.randrange(9)) if small else (rng.randrange(P), rng.randrange(P))
        y = f2sqrt(f2add(f2(f2(x, x), x), B2))
        if y: return (x, y)
def t_add(a, b):
    if a is None: return b
    if b is None: return a
    if a[0] == b[0]:
        if a[1] != b[1] or a[1] == (0, 0): return None
        l = f2(f2((0, 3), f2(a[0], a[0])), f2inv(f2add(a[1], a[1])))
    else: l = f2(f2sub(b[1], a[1]), f2inv(f2sub(b[0], a[0])))
    x = f2sub(f2sub(f2(l, l), a[0]), b[0])
    return (x, f2sub(f2(l, f2sub(a[0], x)), a[1]))
def t_mul(a, k):
    r = None
    for b in bin(k)[2:]:
        r = t_add(r, r)
        if b == "1": r = t_add(r, a)
    return r
def g2_point(rng):
    """a point of the subgroup, by clearing the cofactor 2p - r"""
    while True:
        q = t_mul(twist_point(rng), 2 * P - R)
        if q: return [q[0][0], q[0][1], q[1][0], q[1][1]]
def hexof(xs): return "".join("%064x" % x for x in xs)

class GM:
    def __init__(s, rng): s.rng, s.ops, s.regs = rng, [], []
    def op(s, op, t="", a=(), b=(), k="0", h="", d=None, keep=True):
        """d: None for a new register, or the receiver"""
        s.ops.append(dict(op=op, t=t, a=list(a), b=list(b), k=str(k), h=h, d=-1 if d is None else d))
        if d is None and keep and op not in ("check", "x", "str", "enc"):
            s.regs.append(t)
            return len(s.regs) - 1
        return d
    def pick(s, t):
        c = [i for i, x in enumerate(s.regs) if x == t]
        return s.rng.choice(c) if c else None
    def scalar(s):
        r, c = s.rng, s.rng.random()
        if c < .35: return r.choice([0, 1, 2, 3, -1, -2, R, R - 1, R + 1, R - 2, 2 * R, -R, -R - 1, 2 * R - 1, P, (R - 1) // 2, (R + 1) // 2])
        if c < .45: return r.choice([1, -1]) * r.getrandbits(600)
        if c < .55: return 1 << r.randrange(300)
        if c < .65: return r.choice([-1, 1]) * r.randrange(50)
        if c < .8: return values.limbs(r)
        return r.randrange(R)
    def case(s, start=None, race=False, **kw):
        n = len(s.ops) if start is None else start
        q = dict(cmd="group", prog=s.ops, **{"from": n})
        mk = lambda rep: dict(prog=s.ops, rep=clean(rep, "evs"), **{"from": n})
        cost = dict(pair=8, check=2, mul=3, base=2, dec=3)
        def weight(rec):
            return sum(cost.get(o["op"], 1) * (4 if o["t"] == "T" else 1) for o in rec["prog"])
        return core.Case("GroupTrace", q, mk, weight=weight, timeout=60, race=race, tries=4 if race else 1,
                         sample=dict(operations=s.ops[:6]), **kw)

def randoms(rng, n, length=16, groups="12", start=None):
    """operations on random elements; the receiver is a new element, or one of the operands, or another one"""
    out = []
    for _ in range(n):
        M = GM(rng)
        T = rng.choice(groups)
        def load():
            if T == "T":
                a, b = M.op("base", "1", k=M.scalar()), M.op("base", "2", k=M.scalar())
                M.op("pair", "T", [a, b])
            elif rng.random() < .12: M.op("dec", T, h=hexof(g1_point(rng) if T == "1" else g2_point(rng)))
            elif rng.random() < .1:
                first = rng.choice([0, 0, R, R - 1, 1, (1 << 256) - 1, rng.getrandbits(256), rng.getrandbits(256)])
                M.op("rand", T, h="%064x" % first + "".join("%064x" % rng.getrandbits(256) for _ in range(40)))
            else: M.op("base", T, k=M.scalar())
        for _ in range(2): load()
        if T == "T": M.op("one", "T")
        for _ in range(length if T != "T" else length // 2):
            a, b = M.pick(T), M.pick(T)
            d = rng.choice([None, None, a, b, M.pick(T)])
            c = rng.random()
            if c < .45: M.op("add", T, [a, b if rng.random() < .75 else a], d=d)
            elif c < .62 and T != "2": M.op("neg", T, [a], d=d)
            elif c < .75: M.op("mul", T, [a], k=M.scalar(), d=d)
            elif c < .8 and T != "T": M.op("base", T, k=M.scalar(), d=d)
            elif c < .86: M.op("enc", T, [a])
            elif c < .92: M.op("rt", T, [a], d=d)
            elif c < .95: M.op("str", T, [a])
            elif c < .98 and T == "1": M.op("x", T, [a])
            elif len(M.regs) < 8: load()
        out.append(M.case())
    return out

def listed(r, bound, what):
    """all short programs TLC lists from GroupGen"""
    rc, o = core.tlc("GroupGen", "GroupGen.cfg", dict(BOUND=bound), workers="8", work=r.work)
    if rc != 0: raise core.Broken("GroupGen: " + core.tail(o))
    g, d = core.stats(o)
    r.states += d; r.transitions += g
    progs = {}
    for x in core.records(o): progs[json.dumps(x["prog"])] = x["prog"]
    r.notes.setdefault("models", []).append(dict(module="GroupGen", what=what, states=d, transitions=g, programs=len(progs)))
    return [progs[k] for k in sorted(progs)]

def replay(rng, progs, t, per=25):
    """several programs in a row, over three fresh registers each"""
    out = []
    progs = [p for p in progs if t != "2" or all(x[0] != "neg" for x in p)]
    if t == "T": progs = [p for p in progs if all(x[0] != "base" for x in p)]
    for ch in chunks(progs, per):
        M = GM(rng)
        g = None
        if t == "T": g = M.op("pair", "T", [M.op("base", "1", k=1), M.op("base", "2", k=1)])
        for p in ch:
            ks = [k if k <= 5 else k - 11 for k in p[0][4]]
            regs = [M.op("mul", "T", [g], k=k) if t == "T" else M.op("base", t, k=k) for k in ks]
            for op, d, a, b in p[1:]:
                A = [] if op == "base" else [regs[a - 1]] + ([regs[b - 1]] if op == "add" else [])
                M.op(op, t, A, k=b if op in ("mul", "base") else 0, d=regs[d - 1])
        out.append(M.case())
    return out

def pairings(rng, n, unknown=.15):
    """pairings of multiples of the generators, of sums, negatives and encoded copies of them"""
    out = []
    for _ in range(n):
        M = GM(rng)
        for t in "12":
            for _ in range(2):
                if rng.random() < unknown: M.op("dec", t, h=hexof(g1_point(rng) if t == "1" else g2_point(rng)))
                else: M.op("base", t, k=M.scalar())
        for _ in range(rng.randrange(3)):
            t = rng.choice("12")
            c = rng.random()
            if c < .5: M.op("add", t, [M.pick(t), M.pick(t)])
            elif c < .6 and t == "1": M.op("neg", t, [M.pick(t)])
            elif c < .8: M.op("rt", t, [M.pick(t)])
            else: M.op("mul", t, [M.pick(t)], k=M.scalar())
        for _ in range(2): M.op("pair", "T", [M.pick("1"), M.pick("2")])
        c = rng.random()
        if c < .4: M.op("add", "T", [M.pick("T"), M.pick("T")], d=rng.choice([None, M.pick("T")]))
        elif c < .7: M.op("mul", "T", [M.pick("T")], k=M.scalar(), d=rng.choice([None, M.pick("T")]))
        else: M.op("neg", "T", [M.pick("T")], d=rng.choice([None, M.pick("T")]))
        out.append(M.case())
    return out

def products(rng, n, unknown=0):
    """product checks: the last scalar often makes the sum vanish"""
    out = []
    for _ in range(n):
        M = GM(rng)
        for _ in range(3):
            m = rng.choice([0, 1, 1, 2, 2, 3, 4, 6])
            ab = [(M.scalar(), M.scalar()) for _ in range(m)]
            if m and rng.random() < .65: # make it vanish
                i = rng.randrange(m)
                s = sum(a * b for j, (a, b) in enumerate(ab) if j != i)
                b = ab[i][1] % R
                if b: ab[i] = (-s * pow(b, R - 2, R) % R, ab[i][1])
                if rng.random() < .25: ab[i] = (ab[i][0] + rng.choice([1, -1]), ab[i][1])
            ps = [M.op("base", "1", k=a) for a, _ in ab]
            qs = [M.op("base", "2", k=b) for _, b in ab]
            M.op("check", "", ps, qs)
            if m > 1:
                o = list(range(m)); rng.shuffle(o)
                M.op("check", "", [ps[i] for i in o], [qs[i] for i in o])
        out.append(M.case())
    return out

def mixed_products(rng, n):
    """product checks of elements with unknown exponents: e(P, Q) e(-P, Q) and the like"""
    out = []
    for _ in range(n):
        M = GM(rng)
        p, q = M.op("dec", "1", h=hexof(g1_point(rng))), M.op("dec", "2", h=hexof(g2_point(rng)))
        k = rng.choice([-1, -1, 2, R - 1, rng.randrange(R)])
        p2 = M.op("mul", "1", [p], k=k)
        q2 = M.op("mul", "2", [q], k=-pow(k % R, R - 2, R) if rng.random() < .5 else rng.choice([1, -1]))
        M.op("check", "", [p, p2], [q, q2])
        out.append(M.case())
    return out

def encodings(rng, n, groups="12T"):
    """elements computed in several ways, encoded, decoded, and damaged encodings"""
    out = []
    for _ in range(n):
        M = GM(rng)
        T = rng.choice(groups)
        if T == "T":
            g = M.op("pair", "T", [M.op("base", "1", k=1), M.op("base", "2", k=1)])
            k = M.scalar()
            a = M.op("mul", "T", [g], k=k)
            b = M.op("mul", "T", [g], k=k - 1)
            c = M.op("add", "T", [b, g], d=rng.choice([None, b]))
            o = M.op("one", "T")
        else:
            k = M.scalar()
            g = M.op("base", T, k=1)
            a = M.op("base", T, k=k)
            b = M.op("base", T, k=k - 1)
            c = M.op("add", T, [b, g], d=rng.choice([None, b]))
            o = M.op("base", T, k=rng.choice([0, R]))
            u = M.op("dec", T, h=hexof(g1_point(rng) if T == "1" else g2_point(rng)))
            M.op("enc", T, [u]); M.op("rt", T, [u], d=rng.choice([None, a]))
        for x in (a, c, o): M.op("enc", T, [x])
        M.op("rt", T, [c], d=rng.choice([None, a, o, c]))
        M.op("rt", T, [o], d=rng.choice([None, c]))
        M.op("enc", T, [c])
        M.op("add", T, [c, o])
        out.append(M.case())
    return out

def damaged(rng, n):
    """bytes that mostly encode nothing; each is decoded into a fresh element"""
    out = []
    for _ in range(n):
        M = GM(rng)
        for _ in range(6):
            T = rng.choice("1122T")
            m = COUNT[T]
            if T == "1": xs = rng.choice([[1, 2], g1_point(rng), [1, P - 2]])
            elif T == "2":
                q = twist_point(rng, small=rng.random() < .3)
                xs = rng.choice([[q[0][0], q[0][1], q[1][0], q[1][1]], g2_point(rng)])
            else: xs = [rng.randrange(P) for _ in range(m)]
            xs, h = list(xs), None
            c = rng.choice(["ok", "+p", "+p", "p", "big", "y+1", "x+1", "swap", "zero", "onezero", "short", "long", "empty", "neg"])
            j = rng.randrange(m)
            if c == "+p" and xs[j] + P < 1 << 256: xs[j] += P
            elif c == "+p": xs[j] = P + rng.randrange(1 << 250)
            elif c == "p": xs[j] = P
            elif c == "big": xs[j] = (1 << 256) - 1 - rng.randrange(3)
            elif c == "y+1": xs[-1] = (xs[-1] + 1) % P
            elif c == "x+1": xs[0] = (xs[0] + 1) % P
            elif c == "swap": xs = xs[1:] + xs[:1]
            elif c == "zero": xs = [0] * m
            elif c == "onezero": xs[j] = 0
            elif c == "neg": xs[-1] = (P - xs[-1]) % P
            h = hexof(xs)
            if c == "short": h = h[:-2 * rng.choice([1, 2, 31, 32, 64])]
            elif c == "long": h = h + "00" * rng.choice([1, 32, 64])
            elif c == "empty": h = ""
            # kept aside: what was decoded is not used any further
            M.op("dec", T, h=h, keep=False)
        out.append(M.case(start=0, key=json.dumps(M.ops)))
    return out

def parallel(rng, n, race=True):
    """independent operations on shared operands, at the same time"""
    out = []
    for _ in range(n):
        M = GM(rng)
        for t in "12":
            for _ in range(3): M.op("base", t, k=M.scalar())
            M.op("add", t, [M.pick(t), M.pick(t)])
        M.op("pair", "T", [M.pick("1"), M.pick("2")])
        start = len(M.ops)
        for _ in range(8):
            c = rng.random()
            if c < .3: M.op("pair", "T", [M.pick("1"), M.pick("2")], keep=False)
            elif c < .4:
                m = rng.randrange(1, 4)
                M.op("check", "", [M.pick("1") for _ in range(m)], [M.pick("2") for _ in range(m)])
            elif c < .7: t = rng.choice("12T"); M.op("add", t, [M.pick(t), M.pick(t)], keep=False)
            else: t = rng.choice("12T"); M.op("mul", t, [M.pick(t)], k=M.scalar(), keep=False)
        out.append(M.case(start=start, race=race))
    return out
