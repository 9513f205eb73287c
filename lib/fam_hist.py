"""Histories of compilations in one process."""
import core, lang, fam_prog as P

def pool(rng, n, m):
    """source texts, among them some that are refused"""
    progs = [c.req["src"] for c in P.large(rng, n, dict(eq=2, div=.1), size=(1, 6))] if m == core.R else \
            [c.req["src"] for c in P.small(rng, n, m, dict(eq=2, div=.1), size=(1, 6))]
    bad = []
    for s in progs[: max(2, n // 4)]:
        k = rng.randrange(4)
        if k == 0: bad.append(s.replace("}", "", 1))
        elif k == 1: bad.append(s.replace("x0", "zz", 1) + "\n")
        elif k == 2: bad.append(s[: rng.randrange(10, len(s))])
        else: bad.append(s.replace("main", "mein"))
    # the same program with another name for things, so that texts overlap
    twins = [s.replace("x0", "x9").replace("v1", "v77") for s in progs[:3]]
    srcs = progs + bad + twins
    rng.shuffle(srcs)
    return srcs

def cases(r, nhist, m, nsrc=10, length=24, race=False):
    rng = r.rng
    out = []
    mod = "" if m == core.R else m
    for _ in range(nhist):
        srcs = pool(rng, nsrc, m)
        ops = []
        for _ in range(length):
            x = rng.random()
            i = rng.randrange(len(srcs))
            if x < .5: ops.append(dict(op="compile", i=i))
            elif x < .8: ops.append(dict(op="solve", i=i, **{"in": [str(rng.randrange(5)) for _ in range(rng.choice([1, 2, 3, 3, 4]))]}))
            else: ops.append(dict(op="par", is_=[rng.randrange(len(srcs)) for _ in range(rng.randrange(2, 9))]))
        for o in ops:
            if "is_" in o:
                o["is"] = o.pop("is_")
                o["in"] = [str(rng.randrange(4)) for _ in range(2)]
        # every solve is repeated later
        ops += [dict(o) for o in ops if o["op"] == "solve"]
        out.append(dict(cmd="hist", srcs=srcs, ops=ops))
    # what a fresh process makes of each text, and the witnesses it computes for the inputs of the history
    reqs = []
    for q in out:
        for i, src in enumerate(q["srcs"]):
            ins = sorted({tuple(o["in"]) for o in q["ops"] if o["op"] == "solve" and o["i"] == i})
            reqs.append(dict(cmd="hist", srcs=[src], ops=[dict(op="compile", i=0)] + [dict(op="solve", i=0, **{"in": list(x)}) for x in ins]))
    it = iter(core.drive(r.binary(), reqs, mod=mod, fresh=True))
    cs = []
    for q in out:
        bs, memo = [], []
        for i, _ in enumerate(q["srcs"]):
            b = next(it)
            dead = b["crash"] or b["timeout"]
            bs.append("dead" if dead else b["evs"][0]["got"])
            if not dead: memo += [dict(i=i, **{"in": e["in"]}, got=e["got"]) for e in b["evs"][1:]]
        def mk(rep, bs=bs, memo=memo): return dict(base=bs, memo=memo, rep=dict(crash=rep["crash"], timeout=rep["timeout"], evs=rep.get("evs", [])))
        cs.append(core.Case("HistTrace", q, mk, mod=mod, weight=lambda rec: len(rec["rep"]["evs"]), timeout=120, race=race, tries=8,
                            sample=dict(sources=q["srcs"][:3], ops=q["ops"][:12])))
    return cs
