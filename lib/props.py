"""The checks, one per property."""
import json
import core, lang, fam_prog as P, fam_hist as H, fam_alg as A, fam_grp as G, fam_zk as Z, fam_text as T, fam_fresh as F

CHECKS = {}
class Check:
    def __init__(s, run, level, assumes): s.run, s.level, s.assumes = run, level, assumes
def check(pid, level="model_checking", assumes=()):
    def deco(f):
        CHECKS[pid] = Check(f, level, list(assumes))
        return f
    return deco

RULE = "random program from the grammar of lib/lang.py, compiled and solved by the real code; non-trivial: it yields at least one constraint"

@check("C01")
def c01(r):
    n = 200 if r.quick else 6000
    r.cases(P.small(r.rng, n, 7) + P.small(r.rng, n // 2, 5, nin=(1, 2, 3)) + P.large(r.rng, n, size=(2, 7)), ",rows,meaning,compile,", RULE)

@check("C02")
def c02(r):
    n = 220 if r.quick else 6000
    w = dict(iff=7, loop=6, fn=1, arr=.3, aset=.3, set=5)
    want = lambda t: P.has(t, "if") or P.has(t, "for")
    r.cases(P.small(r.rng, n, 7, w, want=want, depth=4) + P.large(r.rng, n // 2, w, want=want, depth=4), ",rows,meaning,compile,",
            RULE + " and contains a conditional or a loop")

@check("C03")
def c03(r):
    n = 220 if r.quick else 6000
    w = dict(iff=1.5, loop=1, fn=7, vcall=5, arr=2, aset=2, set=4)
    want = lambda t: P.has(t, "func") and P.has(t, "call")
    r.cases(P.small(r.rng, n, 7, w, want=want, depth=4) + P.large(r.rng, n // 2, w, want=want, depth=4), ",rows,meaning,compile,",
            RULE + " and calls functions")

@check("C07")
def c07(r):
    n = 240 if r.quick else 6000
    r.cases(P.small(r.rng, n, 7, dict(div=.2, eq=4)) + P.small(r.rng, n // 2, 5, dict(div=.15, agc=.1), nin=(1, 3)) + P.large(r.rng, n // 2, dict(div=.15)),
            ",solve,meaning,", RULE)

@check("C08")
def c08(r):
    n = 240 if r.quick else 6000
    r.cases(P.small(r.rng, n, 7) + P.large(r.rng, n), ",forms,solve,operands,", RULE)

@check("C27")
def c27(r):
    n = 44 if r.quick else 1500
    r.cases(P.blinded(P.small(r.rng, n, 7, nin=(1, 3)) + P.small(r.rng, n // 3, 101, nin=1, small=False) + P.large(r.rng, n) + P.layout(r.rng, n // 2, core.R, small=False)
                        + P.large(r.rng, n // 3, dict(sbm=.35), want=lambda t: "scalarBaseMultiply" in json.dumps(t), size=(1, 4))),
            ",blind,rows,forms,solve,meaning,layout,operands,compile,", "random programs compiled with a blinding gate, and without")

@check("C28")
def c28(r):
    n = 8 if r.quick else 60
    r.cases(F.cases(r, n, 3 if r.quick else 6), ",fresh,", "a history of draws: field elements, blinding values, setups, group elements, also at the same time; elements from given bytes; small fields")

@check("C04")
def c04(r):
    n = 220 if r.quick else 6000
    w = dict(eq=1, var=8, iff=.7, loop=1.5, fn=3, vcall=2, div=.12, aset=.5)
    r.cases(P.small(r.rng, n, 7, w, depth=3, size=(4, 8), gates=(2, 16), repeats=True, share=True, nin=3, budget=12)
            + P.small(r.rng, n, 101, w, depth=3, size=(4, 8), gates=(2, 20), repeats=True, share=True, budget=12, small=False)
            + P.large(r.rng, n, w, size=(3, 7), repeats=True, share=True)
            + P.lookalikes(r.rng, n // 2, 7) + P.lookalikes(r.rng, n, 101) + P.lookalikes(r.rng, n, core.R), ",sharing,meaning,rows,",
            RULE + "; products are repeated, commuted and scaled on purpose")

@check("C06")
def c06(r):
    n = 220 if r.quick else 6000
    r.cases(P.layout(r.rng, n, 7) + P.layout(r.rng, n, core.R, small=False), ",layout,compile,machinery,",
            "random parameter lists with arrays and public declarations around random programs; non-trivial: it yields at least one constraint")

@check("C09")
def c09(r):
    n = 70 if r.quick else 2500
    w = dict(var=2, set=1, eq=3, fn=1, iff=1, loop=1, vcall=1, arr=.5)
    kw = dict(tweak=P.splits, share=True, size=(0, 3), want=lambda t: P.has(t, "split"))
    r.cases(P.small(r.rng, n, 5, w, gates=(1, 17), **kw) + P.small(r.rng, n, 7, w, gates=(1, 17), **kw)
            + P.small(r.rng, n // 3, 3, w, gates=(1, 17), **kw) + P.small(r.rng, n // 2, 13, w, gates=(1, 17), budget=30, **kw)
            + P.large(r.rng, 16 if r.quick else 400, w, gates=(1, 600), vectors=3, **kw), ",rows,solve,meaning,compile,split,",
            "random programs with split statements on inputs and on products; non-trivial: it yields at least one constraint")

@check("C10")
def c10(r):
    n = 110 if r.quick else 2500
    w = dict(sbm=.35, fn=2.5, loop=1, iff=1, vcall=2)
    calls = lambda t: "scalarBaseMultiply" in json.dumps(t)
    r.cases(P.large(r.rng, n, w, want=calls, size=(1, 4), vectors=4) + P.large(r.rng, n // 3, w, want=calls, size=(1, 4), nin=1, vectors=6),
            ",rows,solve,meaning,compile,expo,", RULE + "; it contains group exponentiations")

@check("C11")
def c11(r):
    rng = r.rng
    rule = "all token strings up to a bound, in random layouts, and random longer expressions, read by the real compiler: value or refusal"
    for alphabet, bound in (("sums", 5), ("calls", 4), ("signs", 4), ("odd", 4)):
        xs = T.listed(r, alphabet, bound + (0 if r.quick or alphabet == "odd" else 1))
        r.cases(T.exprs(rng, [T.glue(rng, t) for t in xs]), ",expr,", rule)
    n = 6000 if r.quick else 120000
    r.cases(T.exprs(rng, T.random_exprs(rng, n)), ",expr,", rule)
    n = 160 if r.quick else 4000
    r.cases([T.as_text(c, rng) for c in P.small(rng, n, 7) + P.large(rng, n)], ",compile,rows,meaning,layout,",
            "random programs in random layouts; TLC reads the text itself")

@check("C12")
def c12(r):
    rng = r.rng
    n = 1200 if r.quick else 11000
    rule = "random programs spoiled by inserting, deleting and replacing tokens and characters, and programs with one mistake; TLC reads the text and says whether it has a meaning"
    r.cases(T.spoiled(rng, 2 * n), ",text,", rule)
    tags = ",compile,rows,meaning,layout,"
    r.cases(T.mistakes(rng, n, 7) + T.garbled(rng, n, 7), tags, rule)
    r.cases(T.mistakes(rng, n, core.R) + T.garbled(rng, n, core.R), tags, rule)

@check("C29")
def c29(r):
    n = 350 if r.quick else 6000
    r.cases(T.imported(r.rng, n, 7) + T.imported(r.rng, n, core.R), ",compile,rows,meaning,layout,",
            "random programs spread over files that import each other; some with files that are missing, defective or import themselves")

@check("C05")
def c05(r):
    n = 24 if r.quick else 300
    r.cases(H.cases(r, n, core.R) + H.cases(r, n, 7) + H.cases(r, 8 if r.quick else 60, 7, nsrc=6, length=12, race=True), ",history,",
            "random histories over pools of related and defective source texts: compilations, concurrent compilations and witness computations, compared with fresh processes")

@check("C18")
def c18(r):
    r.model("Avl", what="the tree algorithm represents the map and stays balanced, all histories over 7 keys")
    big = [(7, 2, [1, 0]), (5, 3, [1, 2, 0])] if r.quick else [(9, 2, [1, 0]), (6, 3, [1, 2, 0]), (4, 5, [1, 2, 3, 4, 0])]
    for k, m, v in big:
        r.cases(A.explore(k, m, v, parts=8 if r.quick else 24), ",map,", "every transition between the shapes of a sparse vector over %d keys" % k)
    n = 100 if r.quick else 4000
    r.cases(A.map_histories(r.rng, n, core.R) + A.map_histories(r.rng, n, 3, 120), ",map,ring,dead,", "long histories of map operations on several sparse vectors")

@check("C21")
def c21(r):
    n = 60 if r.quick else 2500
    cs = A.field_random(r.rng, n, core.R) + A.field_random(r.rng, n // 2, 2**127 - 1) + A.field_random(r.rng, n // 2, 101)
    for m in ([2, 3, 5, 7] if r.quick else [2, 3, 5, 7, 11, 13]): cs += A.field_tables(r.rng, m)
    r.cases(cs, ",field,ring,dead,", "programs of field operations on reduced, unreduced and negative operands; all operand pairs for the smallest fields")

@check("C19")
def c19(r):
    n = 120 if r.quick else 4000
    cs = A.poly_random(r.rng, n, core.R) + A.poly_random(r.rng, n, 7) + A.poly_random(r.rng, n // 2, 101) + A.poly_random(r.rng, n // 2, 3)
    cs += A.poly_tables(r.rng, 2, 4 if r.quick else 5) + A.poly_tables(r.rng, 3, 3) + A.poly_points(r.rng, 2, 4, 2) + A.poly_points(r.rng, 3, 3, 3) + A.poly_points(r.rng, 5, 2 if r.quick else 3, 5)
    r.cases(cs, ",ring,map,dead,", "programs of dense and sparse polynomial operations; all pairs of short polynomials over the smallest fields")

@check("C20")
def c20(r):
    n = 120 if r.quick else 4000
    cs = A.divisions(r.rng, n, core.R) + A.divisions(r.rng, n, 7) + A.divisions(r.rng, n, 2)
    cs += A.poly_tables(r.rng, 2, 5 if r.quick else 6, ("pdiv",), ("sdiv",)) + A.poly_tables(r.rng, 3, 3 if r.quick else 4, ("pdiv",), ("sdiv",))
    r.cases(cs, ",division,dead,", "random and exact divisions; all pairs of short polynomials over the smallest fields")

@check("C22")
def c22(r):
    s2 = A.schedules(r, what="all schedules of two enumerations of three entries and a look-up")
    s3 = A.schedules(r, "AvlIterGen3.cfg", what="all schedules of three enumerations of one entry")
    sim = A.schedules(r, "AvlIterSim.cfg", ("-simulate", "num=%d" % (300 if r.quick else 20000), "-depth", "80", "-seed", str(r.seed)),
                      what="random schedules of five enumerations of seven entries")
    cs = A.iterations(r.rng, s2, 3, 600) + A.iterations(r.rng, s3, 1, 600) + A.iterations(r.rng, sim, 7, 100)
    r.rng.shuffle(s2)
    cs += A.iterations(r.rng, s2[:400] + [], 3, 50, race=True)
    r.cases(cs, ",iter,", "schedules listed by TLC, replayed by the real code")
    n = 20 if r.quick else 800
    r.cases(A.parallel(r.rng, n, core.R, race=True) + A.parallel(r.rng, n, 101, race=True) + A.parallel(r.rng, 2 * n, core.R, g=8),
            ",ring,map,field,division,operands,dead,", "goroutines reading the same vectors at once, under the race detector")

GRP = ",group,operands,dead,"
@check("C24")
def c24(r):
    progs = G.listed(r, 2, "all programs of two operations over three registers, every choice of receiver and operands")
    if not r.quick: progs3 = G.listed(r, 3, "all programs of three operations over three registers"); r.rng.shuffle(progs3)
    pick = lambda n: progs if not r.quick else r.rng.sample(progs, min(n, len(progs)))
    cs = G.replay(r.rng, pick(5000), "1") + G.replay(r.rng, pick(2500), "2") + G.replay(r.rng, pick(700), "T")
    if not r.quick: cs += G.replay(r.rng, progs3[:60000], "1") + G.replay(r.rng, progs3[60000:90000], "2") + G.replay(r.rng, progs3[90000:100000], "T")
    r.cases(cs, GRP, "programs of group operations listed by TLC, with every aliasing of receiver and operands")
    n = 80 if r.quick else 2500
    r.cases(G.randoms(r.rng, n, groups="12") + G.randoms(r.rng, n // 3, groups="T") + G.parallel(r.rng, 6 if r.quick else 100), GRP,
            "random programs of group operations with edge-case scalars; concurrent operations on shared operands")

@check("C25")
def c25(r):
    n = 44 if r.quick else 1500
    r.cases(G.pairings(r.rng, n) + G.products(r.rng, 2 * n) + G.mixed_products(r.rng, n // 6) + G.parallel(r.rng, 6 if r.quick else 100),
            ",pairing,group,operands,dead,", "pairings and product checks of multiples of the generators and of decoded points; the pairing is recomputed from its definition")

@check("C26")
def c26(r):
    n = 120 if r.quick else 4000
    r.cases(G.encodings(r.rng, n) + G.damaged(r.rng, n), ",codec,group,operands,dead,", "elements computed in several ways, encoded and decoded; damaged encodings")

@check("C13")
def c13(r):
    n = 44 if r.quick else 1500
    r.cases(Z.qaps(r.rng, n, core.R) + Z.qaps(r.rng, n, 101) + Z.qaps(r.rng, n, 7) + Z.qaps(r.rng, n // 2, 101, size=(8, 20), wires=(3, 9))
            + Z.qaps(r.rng, n // 3, core.R, expo=.4) + Z.program_qaps(r.rng, n // 2) + Z.program_qaps(r.rng, n // 2, 7) + Z.program_qaps(r.rng, n // 4, expo=True),
            ",columns,poly,dead,", "random constraint systems, and those of random programs; per system several witnesses and vectors next to them")

MODEL = "Wol19MC: on a small circuit, whatever is made of proofs and keys is accepted iff it is the proof of a witness"
SCHEME = "keys, proofs and verdicts on random systems and on those of random programs"
@check("C15")
def c15(r):
    r.model("Wol19MC", env=dict(BOUND=2), what=MODEL)
    n = 150 if r.quick else 3500
    r.cases(Z.honest(r.rng, n) + Z.honest(r.rng, n // 20, gates=(12, 25)) + Z.honest(r.rng, 4 if r.quick else 60, race=True), ",complete,dead,",
            SCHEME + ": dense and sparse setups and provers, several keys, statements and proofs in a row and at the same time")

@check("C16")
def c16(r):
    sch = Z.schedules(r, 2, what=MODEL)
    sch3 = Z.schedules(r, 3, what=MODEL + " (three proofs)") if not r.quick else Z.schedules(r, 3, extra=("-simulate", "num=15", "-depth", "8", "-seed", str(r.seed)), what="random schedules of three proofs")
    r.rng.shuffle(sch); r.rng.shuffle(sch3)
    n = 150 if r.quick else 3000
    r.cases(Z.hostile(r.rng, n), ",sound,exact,dead,", SCHEME + ": damaged proofs, other signals, other keys")
    r.cases(Z.replay(r.rng, sch[:90] + sch3[:60]) if r.quick else Z.replay(r.rng, sch + sch3[:4000]), ",sound,exact,dead,", "schedules TLC lists from Wol19MC, replayed on other circuits")

@check("C17")
def c17(r):
    r.model("Wol19MC", env=dict(BOUND=2), what=MODEL)
    n = 320 if r.quick else 7000
    r.cases(Z.dishonest(r.rng, n), ",prover,dead,", SCHEME + ": vectors which are no witness, and mixed ones")

@check("C14")
def c14(r):
    n = 40 if r.quick else 900
    r.cases(Z.keys(r.rng, n) + Z.keys(r.rng, 4 if r.quick else 60, par=1, race=True), ",key,dead,",
            "the published elements of dense and sparse setups of random systems and of those of random programs, made alone and at the same time")

@check("C23")
def c23(r):
    n = 70 if r.quick else 2000
    cs = A.poly_random(r.rng, n, core.R, length=40) + A.poly_random(r.rng, n, 7, length=40) + A.field_random(r.rng, n // 2, core.R) + A.field_random(r.rng, n // 2, 101)
    cs += A.map_histories(r.rng, n // 2, core.R) + A.divisions(r.rng, n // 3, core.R) + A.divisions(r.rng, n // 3, 7)
    r.cases(cs, ",operands,dead,", "programs of field, polynomial and sparse vector operations which reuse and change values that were operands or results before; every register is compared after every operation")
    r.cases(P.small(r.rng, n, 7) + P.large(r.rng, n) + P.large(r.rng, n // 4, dict(sbm=.35), size=(1, 4)), ",operands,", "systems and inputs of random programs before and after witness computation and transposition")
    progs = G.listed(r, 2, "all programs of two group operations over three registers, every choice of receiver and operands")
    pick = lambda k: progs if not r.quick else r.rng.sample(progs, min(k, len(progs)))
    r.cases(G.replay(r.rng, pick(1500), "1") + G.replay(r.rng, pick(800), "2") + G.replay(r.rng, pick(200), "T") + G.products(r.rng, n // 3), ",operands,dead,",
            "programs of group operations: elements other than the receiver keep their values")
    r.cases(Z.qaps(r.rng, n // 2, core.R) + Z.qaps(r.rng, n // 2, 7) + Z.qaps(r.rng, n // 3, core.R, expo=.4), ",operands,", "constraint systems and vectors before and after interpolation and combination")
    r.cases(Z.honest(r.rng, n // 5) + Z.hostile(r.rng, n // 8) + Z.dishonest(r.rng, n // 8), ",operands,", "systems, keys, vectors and proofs before and after setups, proofs and verifications")
