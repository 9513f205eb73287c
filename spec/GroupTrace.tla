----------------------------- MODULE GroupTrace -----------------------------
(* The two source groups, the target group and the pairing as a machine with    *)
(* registers.  An operation sets its receiver - a new register or an existing   *)
(* one, which can be an operand as well - and leaves every other register alone.*)
(* A trace line is a program with, for each operation, what it answered and the  *)
(* encodings of all registers whose element is another one than before.         *)
(*   register: [t: "1", "2" or "T", v: the element,                             *)
(*              e: its exponent to the base of the generator, "?" if unknown]   *)
EXTENDS Codec, TLCExt, Json, IOUtils, FiniteSets
VARIABLES i, l, regs, why
vars == <<i, l, regs, why>>
Recs == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Rec == Recs[i]
Tags == IOEnv.TAGS
Wanted(t) == \E k \in 1..Len(Tags) : Len(Tags) >= k + Len(t) - 1 /\ SubSeq(Tags, k, k + Len(t) - 1) = t
Tag(t, x) == <<t, x>>
Reg(k) == regs[k + 1]

\* ------------------------------------------------------------ the operations
El(t, v, e) == [t |-> t, v |-> v, e |-> e]
Known(r) == r.e # "?"
EAdd(a, b) == IF a = "?" \/ b = "?" THEN "?" ELSE MAdd(a, b, R)
EMul(a, k) == IF a = "?" THEN "?" ELSE MMul(a, k, R)
One(t) == IF t = "T" THEN F12One ELSE <<>>
Plus(t, a, b) == CASE t = "1" -> G1Add(a, b) [] t = "2" -> G2Add(a, b) [] t = "T" -> F12Mul(a, b)
Times(t, a, k) == CASE t = "1" -> G1Mul(a, k) [] t = "2" -> G2Mul(a, k) [] t = "T" -> F12Times(a, BMod(k, R))
\* elements of the target group have norm one: the inverse is the conjugate
Minus(t, a) == CASE t = "1" -> G1Neg(a) [] t = "2" -> G2Neg(a)
                 [] t = "T" -> [k \in 1..6 |-> IF k % 2 = 0 THEN F2Sub(F2Zero, a[k]) ELSE a[k]]
Paired(p, q) == IF Known(p) /\ Known(q) THEN El("T", F12Times(GTGen, MMul(p.e, q.e, R)), MMul(p.e, q.e, R))
                ELSE El("T", Pairing(p.v, q.v), "?")
CheckProduct(ps, qs) ==
    IF \A k \in 1..Len(ps) : Known(Reg(ps[k])) /\ Known(Reg(qs[k]))
    THEN FoldLeft(LAMBDA acc, k : MAdd(acc, BMul(Reg(ps[k]).e, Reg(qs[k]).e), R), "0", [k \in 1..Len(ps) |-> k]) = "0"
    ELSE FoldLeft(LAMBDA acc, k : TLCEval(F12Mul(acc, Paired(Reg(ps[k]), Reg(qs[k])).v)), F12One, [k \in 1..Len(ps) |-> k]) = F12One
Gen(t) == IF t = "1" THEN G1Gen ELSE G2Gen

Fails(o) == o.op = "dec" /\ Dec(o.t, o.h) = <<>>
Sets == {"base", "mul", "add", "neg", "one", "pair", "rt", "dec", "rand"}
Value(o, ev) ==
    CASE o.op = "base" -> El(o.t, Times(o.t, Gen(o.t), o.k), BMod(o.k, R))
      [] o.op = "rand" -> El(o.t, Times(o.t, Gen(o.t), ev.out[1]), ev.out[1])
      [] o.op = "mul" -> El(o.t, Times(o.t, Reg(o.a[1]).v, o.k), EMul(Reg(o.a[1]).e, o.k))
      [] o.op = "add" -> El(o.t, Plus(o.t, Reg(o.a[1]).v, Reg(o.a[2]).v), EAdd(Reg(o.a[1]).e, Reg(o.a[2]).e))
      [] o.op = "neg" -> El(o.t, Minus(o.t, Reg(o.a[1]).v), EMul(Reg(o.a[1]).e, "-1"))
      [] o.op = "one" -> El("T", F12One, "0")
      [] o.op = "pair" -> Paired(Reg(o.a[1]), Reg(o.a[2]))
      [] o.op = "rt" -> Reg(o.a[1])
      [] o.op = "dec" -> LET v == Dec(o.t, o.h)[1] IN El(o.t, v, IF v = One(o.t) THEN "0" ELSE "?")
Answer(o) ==
    CASE o.op = "check" -> <<IF CheckProduct(o.a, o.b) THEN "true" ELSE "false">>
      [] o.op = "x" -> <<IF Reg(o.a[1]).v = <<>> THEN "0" ELSE Reg(o.a[1]).v[1]>>
      [] o.op = "enc" -> <<Enc(Reg(o.a[1]).t, Reg(o.a[1]).v)>>
      [] OTHER -> <<>>
Family(o) == CASE o.op \in {"pair", "check"} -> "pairing" [] o.op \in {"enc", "rt", "dec"} -> "codec" [] OTHER -> "group"

\* <<the complaints, the registers afterwards>>
Judge(o, ev) ==
    LET f == Family(o)
        dest == IF o.d >= 0 THEN o.d ELSE IF Rec.from <= l - 1 THEN 0 - 1 ELSE Len(regs)
        other == {k \in 1..Len(ev.chg) : ev.chg[k][1] # dest}
        touched == IF other # {} THEN {Tag("operands", o.op \o ": changes an element it was not asked to change")} ELSE {}
    IN IF Fails(o) THEN <<(IF ev.err THEN {} ELSE {Tag(f, "bytes that encode no element are accepted")})
                          \cup (IF ev.panic # "" THEN {Tag(f, "decoding panics")} ELSE {})
                          \cup {x \in touched : o.d < 0 \/ Cardinality(other) > 0}, regs>>
       ELSE IF ev.err THEN <<{Tag(f, o.op \o ": fails: " \o ev.panic)}, regs>>
       ELSE IF o.op = "rand" /\ (Len(ev.out) # 1 \/ ~BIsNum(ev.out[1]) \/ ~BLt("0", ev.out[1]) \/ ~BLt(ev.out[1], R))
            THEN <<{Tag(f, "a random scalar is out of range")}, regs>>
       ELSE IF o.op \in Sets THEN
            LET w == TLCEval(Value(o, ev))
                mine == {k \in 1..Len(ev.chg) : ev.chg[k][1] = dest}
                right == IF mine = {} THEN dest >= 0 /\ dest < Len(regs) /\ Reg(dest) .v = w.v /\ Reg(dest).t = w.t
                         ELSE \A k \in mine : ev.chg[k][2] = Enc(w.t, w.v)
            IN <<(IF right THEN {} ELSE {Tag(f, o.op \o ": wrong result")}) \cup touched
                 \cup (IF ev.out # <<>> /\ o.op # "rand" THEN {Tag("operands", o.op \o ": " \o ev.out[1])} ELSE {}),
                 IF dest < 0 THEN regs ELSE IF dest = Len(regs) THEN Append(regs, w) ELSE [regs EXCEPT ![dest + 1] = w]>>
       ELSE <<(IF ev.out # Answer(o) THEN {Tag(f, o.op \o ": wrong answer")} ELSE {})
              \cup (IF ev.chg # <<>> THEN {Tag("operands", o.op \o ": changes an element")} ELSE {}), regs>>

Dead == Rec.rep.crash # "" \/ Rec.rep.timeout \/ Rec.rep.err # ""
More == i <= Len(Recs) /\ ~Dead /\ l <= Len(Rec.rep.evs) /\ why = {}
Step == /\ More
        /\ LET j == TLCEval(Judge(Rec.prog[l], Rec.rep.evs[l])) IN why' = j[1] /\ regs' = j[2]
        /\ l' = l + 1 /\ UNCHANGED i
Done == /\ i <= Len(Recs) /\ ~More
        /\ i' = i + 1 /\ l' = 1 /\ regs' = <<>> /\ why' = {}
        /\ LET tagset == {x \in why : Wanted(x[1])}
               dead == IF Dead THEN {Tag("dead", "the operations crash or hang: " \o Rec.rep.crash \o Rec.rep.err)} ELSE {}
               short == IF ~Dead /\ why = {} /\ Len(Rec.rep.evs) # Len(Rec.prog) THEN {Tag("machinery", "the program was not run to its end")} ELSE {}
           IN  PrintT(ToJson([kind |-> "rec", id |-> Rec.id, why |-> SetToSeq(tagset \cup dead \cup short), ft |-> [operations |-> l - 1]]))
Init == i = 1 /\ l = 1 /\ regs = <<>> /\ why = {}
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
