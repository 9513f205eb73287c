----------------------------- MODULE MachTrace -----------------------------
(* The field, the polynomials and the sparse vectors as one machine with        *)
(* registers.  A state is the content of the registers; every operation of the *)
(* code is a step that appends its results and changes no register except the  *)
(* receiver of an operation in place.  A trace line is a program together with *)
(* what the real code answered after every operation: its results and all       *)
(* registers whose content changed.                                            *)
(*   number <<"n", x>>   vector <<"p", s>>   sparse vector <<"s", f>>           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils
INSTANCE Algebra
INSTANCE SparseMap
VARIABLES i, l, regs, why
A == INSTANCE Avl WITH Keys <- {}, Vals <- {}, Mod <- "2", t <- l, s <- regs

Recs == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Rec == Recs[i]
M   == Rec.m
vars == <<i, l, regs, why>>

Tags == IOEnv.TAGS
Wanted(t) == \E k \in 1..Len(Tags) : Len(Tags) >= k + Len(t) - 1 /\ SubSeq(Tags, k, k + Len(t) - 1) = t

N(k) == regs[k + 1][2]          \* content of a register
Is(k, t) == regs[k + 1][1] = t

\* what an operation answers; results which are defined by an equation are
\* judged by it
Expected(o) ==
    LET a == o.a  X == N(a[1])  Y == N(a[2])
        num(x) == << <<"n", x>> >>
        vec(x) == << <<"p", x>> >>
        spa(x) == << <<"s", x>> >>
        str(x) == << <<"x", x>> >>
        tf(b)  == << <<"x", IF b THEN "true" ELSE "false">> >>
        Zero(x) == BMod(x, M) = "0"
        Top == SDeg(X)  Low == IF DOMAIN X = {} THEN 0 ELSE Min(DOMAIN X)
    IN CASE o.op = "num" -> num(o.v)
         [] o.op = "vec" -> << <<"raw", o.w>> >>
         [] o.op = "spa" -> spa(SOfList([k \in 1..Len(o.e) |-> <<BToInt(o.e[k][1]), o.e[k][2]>>]))
         [] o.op = "add" -> num(MAdd(X, Y, M))
         [] o.op = "sub" -> num(MSub(X, Y, M))
         [] o.op \in {"mul", "mulscalar"} -> num(MMul(X, Y, M))
         [] o.op = "neg" -> num(MSub("0", X, M))
         [] o.op = "double" -> num(MAdd(X, X, M))
         [] o.op = "square" -> num(MMul(X, X, M))
         [] o.op \in {"copy", "affine"} -> num(BMod(X, M))
         [] o.op = "inv" -> num(BInvMod(BMod(X, M), M))
         [] o.op = "div" -> num(FDiv(X, Y, M))
         [] o.op = "exp" -> num(BMod(BPowMod(X, Y, M), M))
         [] o.op = "expint" -> num(BMod(BPowMod(X, o.v, M), M))
         [] o.op = "equal" -> tf(BMod(X, M) = BMod(Y, M))
         [] o.op = "iszero" -> tf(Zero(X))
         [] o.op = "str" -> num(BMod(o.v, M))
         [] o.op = "zero" -> num("0")
         [] o.op = "one" -> num("1")
         [] o.op = "padd" -> vec(PAdd(X, Y, M))
         [] o.op = "psub" -> vec(PSub(X, Y, M))
         [] o.op = "pmul" -> vec(PMul(X, Y, M))
         [] o.op = "pdiv" -> << <<"quo", X, Y>>, <<"rest", X, Y>> >>
         [] o.op = "pscale" -> vec(PScale(X, Y, M))
         [] o.op = "peval" -> num(BMod(PEval(X, Y, M), M))
         [] o.op = "pdot" -> num(PDot(X, Y, M))
         [] o.op = "pinterp" -> << <<"points", X>> >>
         [] o.op = "pzeroat" -> << <<"points", [k \in 1..o.j |-> IF k - 1 = o.k THEN X ELSE "0"]>> >>
         [] o.op = "pdomain" -> vec(PDomain(o.k, M))
         [] o.op = "plin" -> [k \in 1..Len(N(a[o.k + 1])) |-> <<"p", PScale(N(a[k]), N(a[o.k + 1])[k], M)>>]
         [] o.op = "psum" -> vec(FoldLeft(LAMBDA acc, k : PAdd(acc, N(k), M), <<>>, a))
         [] o.op = "ptransp" -> [c \in 1..Len(X) |-> <<"raw", [r \in 1..Len(a) |-> N(a[r])[c]]>>]
         [] o.op = "peq" -> tf(X = Y)
         [] o.op = "pzero" -> tf(\A k \in 1..Len(X) : X[k] = "0")
         [] o.op = "pzeros" -> << <<"raw", Zeros(o.k)>> >>
         [] o.op = "p2s" -> spa(SOfVec(X, M))
         [] o.op = "s2p" -> << <<"raw", SToVec(X, o.k)>> >>
         [] o.op = "swith" -> spa(SOfVec(Zeros(o.k) \o <<X>>, M))
         [] o.op = "sadd" -> spa(SAdd(X, Y, M))
         [] o.op = "ssub" -> spa(SSub(X, Y, M))
         [] o.op = "smul" -> spa(SMul(X, Y, M))
         [] o.op = "sdiv" -> << <<"squo", X, Y>>, <<"srest", X, Y>> >>
         [] o.op = "sscale" -> spa(SScale(X, Y, M))
         [] o.op = "seval" -> num(BMod(SEval(X, Y, M), M))
         [] o.op = "sdot" -> num(FoldSet(LAMBDA k, acc : MAdd(acc, BMul(X[k], Y[k + 1]), M), "0", DOMAIN X))
         [] o.op = "sinterp" -> << <<"spoints", X, o.k>> >>
         [] o.op = "slin" -> [k \in 1..Len(N(a[o.k + 1])) |-> <<"s", SScale(N(a[k]), N(a[o.k + 1])[k], M)>>]
         [] o.op = "ssum" -> spa(FoldLeft(LAMBDA acc, k : SAdd(acc, N(k), M), SNil, a))
         [] o.op = "stransp" -> [c \in 1..o.j |-> <<"s",
                SMake({r \in 0..(o.k - 1) : (c - 1) \in DOMAIN N(a[r + 1])}, LAMBDA r : N(a[r + 1])[c - 1], M)>>]
         [] o.op = "sclone" -> spa(X)
         [] o.op = "rem" -> IF o.k \in DOMAIN X THEN num(X[o.k]) ELSE str("missing")
         [] o.op = "get" -> <<<<"n", SAt(X, o.k)>>, <<"x", IF o.k \in DOMAIN X THEN "there" ELSE "missing">>>>
         [] o.op = "has" -> tf(o.k \in DOMAIN X)
         [] o.op = "size" -> << <<"i", Cardinality(DOMAIN X)>> >>
         [] o.op = "maxp" -> << <<"i", IF Top < 0 THEN 0 ELSE Top>> >>
         [] o.op = "max" -> << <<"i", IF Top < 0 THEN 0 ELSE Top>>, <<"n", SAt(X, IF Top < 0 THEN 0 ELSE Top)>> >>
         [] o.op = "min" -> << <<"i", Low>>, <<"n", SAt(X, Low)>> >>
         [] o.op = "tree" -> << <<"tree", X>> >>
         [] o.op = "asc" -> << <<"asc", X>> >>
         [] o.op \in {"desc", "all"} -> << <<"desc", X>> >>
         [] o.op \in {"scomb", "ins", "insno", "putadd", "putmul", "pset", "nset"} -> <<>>

\* operations that refuse to run
MustFail(o) ==
    CASE o.op = "pdiv" -> PLen(N(o.a[2]), M) = 0
      [] o.op = "sdiv" -> N(o.a[2]) = SNil
      [] o.op = "insno" -> o.k \in DOMAIN N(o.a[1])
      [] o.op = "pdot" -> Len(N(o.a[1])) # Len(N(o.a[2]))
      [] o.op = "s2p" -> SDeg(N(o.a[1])) >= o.k
      [] o.op = "sinterp" -> o.k = 0 \/ SDeg(N(o.a[1])) >= o.k
      [] OTHER -> FALSE

\* operations without a result, whatever the code makes of them
Undefined(o) == \/ o.op = "inv" /\ BMod(N(o.a[1]), M) = "0"
                \/ o.op = "div" /\ BMod(N(o.a[2]), M) = "0"
                \/ o.op = "exp" /\ BMod(N(o.a[1]), M) = "0" /\ BLt(N(o.a[2]), "0")

\* the register an operation changes in place, and its content afterwards
InPlace == {"scomb", "ins", "insno", "putadd", "putmul", "rem", "pset", "nset"}
Changed(o) ==
    LET X == N(o.a[1]) IN
    CASE o.op = "pset" -> <<"p", [X EXCEPT ![o.k + 1] = o.v]>>
      [] o.op = "nset" -> <<"n", o.v>>
      [] o.op = "scomb" -> <<"s", SMake(DOMAIN X, LAMBDA k : BMul(X[k], N(o.a[2])[k + 1]), M)>>
      [] OTHER -> <<"s", Effect(X, o.op, o.k, o.v, M)>>

AllCanon(v) == \A k \in 1..Len(v) : FCanon(v[k], M)
\* got: as shown by the code; all: everything the operation answered
Match(e, got, all) ==
    CASE e[1] \in {"n", "x", "i"} -> got = e
      [] e[1] = "raw" -> got = <<"p", e[2]>>
      [] e[1] = "p" -> got[1] = "p" /\ AllCanon(got[2]) /\ PEq(got[2], e[2], M)
      [] e[1] = "s" -> got[1] = "s" /\ AscList(got[2], e[2])
      [] e[1] = "asc" -> got[1] = "l" /\ AscList(got[2], e[2])
      [] e[1] = "tree" -> got[1] = "t" /\ A!Represents(got[2], e[2]) /\ A!Balanced(got[2]) /\ A!HeightsRight(got[2])
      [] e[1] = "desc" -> got[1] = "l" /\ DescList(got[2], e[2])
      [] e[1] = "points" -> /\ got[1] = "p" /\ AllCanon(got[2]) /\ PLen(got[2], M) <= Len(e[2])
                            /\ \A k \in 1..Len(e[2]) : PEval(got[2], BOfInt(k - 1), M) = BMod(e[2][k], M)
      [] e[1] = "spoints" -> /\ got[1] = "s" /\ SortedAsc(got[2]) /\ SDeg(SOfList(got[2])) < e[3]
                             /\ \A k \in 0..(e[3] - 1) : SEval(SOfList(got[2]), BOfInt(k), M) = SAt(e[2], k)
      [] e[1] = "quo" -> /\ got[1] = "p" /\ AllCanon(got[2]) /\ all[2][1] = "p"
                         /\ PEq(e[2], PAdd(PMul(got[2], e[3], M), all[2][2], M), M)
      [] e[1] = "rest" -> got[1] = "p" /\ AllCanon(got[2]) /\ PIsRemainder(got[2], e[3], M)
      [] e[1] = "squo" -> /\ got[1] = "s" /\ all[2][1] = "s" /\ SortedAsc(got[2])
                          /\ e[2] = SAdd(SMul(SOfList(got[2]), e[3], M), SOfList(all[2][2]), M)
      [] e[1] = "srest" -> got[1] = "s" /\ SortedAsc(got[2]) /\ SDeg(SOfList(got[2])) < SDeg(e[3])

Value(got) == IF got[1] = "s" THEN <<"s", SOfList(got[2])>> ELSE got
Tag(t, x) == <<t, x>>
Family(o) == CASE o.op \in {"num", "add", "sub", "mul", "mulscalar", "neg", "double", "square", "copy", "affine", "inv", "div", "exp",
                            "expint", "equal", "iszero", "str", "zero", "one"} -> "field"
               [] o.op \in {"pdiv", "sdiv"} -> "division"
               [] o.op \in {"ins", "insno", "putadd", "putmul", "rem", "get", "has", "size", "maxp", "max", "min", "asc", "desc", "all", "tree", "sclone", "p2s", "s2p", "swith"} -> "map"
               [] OTHER -> "ring"

Judge(o, ev) ==
    IF MustFail(o) THEN
        (IF ~ev.err THEN {Tag(Family(o), o.op \o ": should be refused")} ELSE {})
        \cup (IF ev.chg # <<>> THEN {Tag("operands", o.op \o ": a refused operation changes its operands")} ELSE {})
    ELSE IF Undefined(o) THEN IF ev.chg # <<>> THEN {Tag("operands", o.op \o ": changes its operands")} ELSE {}
    ELSE IF ev.err THEN {Tag(Family(o), o.op \o ": fails")}
    ELSE LET e == Expected(o)
             bad == {k \in 1..Len(ev.chg) : ~(o.op \in InPlace /\ ev.chg[k][1] = o.a[1])}
             mine == {k \in 1..Len(ev.chg) : ev.chg[k][1] = o.a[1]} IN
         (IF Len(e) # Len(ev.out) THEN {Tag(Family(o), o.op \o ": another number of results")}
          ELSE IF \E k \in 1..Len(e) : ~Match(e[k], ev.out[k], ev.out) THEN {Tag(Family(o), o.op \o ": wrong result")} ELSE {})
         \cup (IF bad # {} THEN {Tag("operands", o.op \o ": changes a value it was not asked to change")} ELSE {})
         \cup (IF o.op \in InPlace /\ (IF mine = {} THEN Changed(o) # regs[o.a[1] + 1]
                                       ELSE \E k \in mine : Value(ev.chg[k][2]) # Changed(o))
               THEN {Tag(Family(o), o.op \o ": the receiver has a wrong content")} ELSE {})

\* every operation
Dead == Rec.rep.crash # "" \/ Rec.rep.timeout \/ Rec.rep.err # ""
More == i <= Len(Recs) /\ ~Dead /\ l <= Len(Rec.rep.evs) /\ why = {}
Op(o, ev) ==
    /\ why' = TLCEval(Judge(o, ev))
    /\ regs' = LET base == FoldLeft(LAMBDA q, c : [q EXCEPT ![c[1] + 1] = Value(c[2])], regs, ev.chg)
                   kept == IF o.d THEN <<>> ELSE SelectSeq(ev.out, LAMBDA x : x[1] \in {"n", "p", "s"}) IN
               TLCEval(base \o [k \in 1..Len(kept) |-> Value(kept[k])])
    /\ l' = l + 1 /\ UNCHANGED i
Step == More /\ Op(Rec.prog[l], Rec.rep.evs[l])
Done == /\ i <= Len(Recs) /\ ~More
        /\ i' = i + 1 /\ l' = 1 /\ regs' = <<>> /\ why' = {}
        /\ LET tagset == {x \in why : Wanted(x[1])}
               dead == IF Dead THEN {Tag("dead", "the operations crash or hang: " \o Rec.rep.crash \o Rec.rep.err)} ELSE {}
               short == IF ~Dead /\ why = {} /\ Len(Rec.rep.evs) # Len(Rec.prog) THEN {Tag("machinery", "the program was not run to its end")} ELSE {}
           IN  PrintT(ToJson([kind |-> "rec", id |-> Rec.id, why |-> SetToSeq(tagset \cup dead \cup short),
                              ft |-> [operations |-> l - 1, at |-> l]]))
Init == i = 1 /\ l = 1 /\ regs = <<>> /\ why = {}
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
