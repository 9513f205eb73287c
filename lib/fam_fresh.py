"""Histories of drawing secrets."""
import core

PROGS = ["func main(x,y,z) {\n\tvar a = x * x\n\tvar b = y * y\n\treturn (a + b) * z\n}",
         "func main(x,y,z) {\n\tvar a = x * x\n\tvar b = y * y\n\tvar c = a + b\n\tvar d = z + 13\n\tequal(c, d)\n\treturn c * z\n}",
         "func main(x,y,z) {\n\tvar f = func(a) {\n\t\treturn a * a\n\t}\n\treturn f(f(x)) * f(y) * z * x\n}",
         "func main(x,y,z) {\n\tvar s = x\n\tvar i = 0\n\tfor(i<4; i = i + 1) {\n\t\ts = s * y + z\n\t}\n\treturn s\n}"]

def history(rng, n):
    ops = [dict(op=rng.choice(["draw", "pardraw"]), n=rng.randrange(8, 80)) for _ in range(3)]
    ops += [dict(op="blind", n=rng.randrange(2, 20), src=rng.choice(PROGS)) for _ in range(n)]
    ops += [dict(op=rng.choice(["setup", "sparse", "parsetup"]), n=rng.randrange(2, 5), src=rng.choice(PROGS)) for _ in range(n)]
    ops += [dict(op="setup", n=2, src=PROGS[0]), dict(op="sparse", n=2, src=PROGS[0])]
    ops += [dict(op="group", n=rng.randrange(3, 9))]
    rng.shuffle(ops)
    return ops + [dict(op="draw", n=200)]

def script(rng):
    """bytes that are too few, say zero, or a number beyond the order, before they say one"""
    order = int(core.R)
    b = []
    for _ in range(rng.randrange(0, 4)):
        x = rng.random()
        v = 0 if x < .4 else order + rng.randrange(0, 1 << 20) if x < .7 else rng.randrange(order, 1 << 254)
        if x < .1: v = 1 << 254 | v       # the top two bits do not count
        b += list(v.to_bytes(32, "big"))
    x = rng.random()
    if x < .2: return b + [rng.randrange(256) for _ in range(rng.randrange(32))]
    v = rng.choice([1, 2, order - 1, order - 2, rng.randrange(1, order)])
    return b + list((v | rng.randrange(4) << 254).to_bytes(32, "big")) + [rng.randrange(256) for _ in range(rng.choice([0, 0, 7, 40]))]

def cases(r, n, k):
    rng = r.rng
    def mk(m):
        def build(rep): return dict(m=m, rep=dict(crash=rep["crash"], timeout=rep["timeout"], err=rep.get("err", ""), evs=rep.get("evs", []) or []))
        return build
    def case(ops, mod=""):
        return core.Case("FreshTrace", dict(cmd="fresh", ops=ops), mk(int(mod or 0)), mod=mod, timeout=240, tries=2, key=str(rng.random()),
                         weight=lambda rec: len(rec["rep"]["evs"]), sample=dict(ops=[{a: b for a, b in o.items() if a != "src"} for o in ops[:8]]))
    cs = [case(history(rng, k)) for _ in range(n)]
    cs += [case([dict(op="scripted", bytes=script(rng)) for _ in range(24)]) for _ in range(n)]
    cs += [case([dict(op="small", n=60 * m)], str(m)) for m in (2, 3, 5, 7, 11, 13, 17, 101, 251, 257)]
    return cs
