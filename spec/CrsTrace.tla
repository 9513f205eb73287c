----------------------------- MODULE CrsTrace -----------------------------
(* The published part of a key.  The secrets x, alpha, beta, gamma, delta are   *)
(* known to nobody; what the elements are is decided by the relations between   *)
(* them, linear ones on the curve and quadratic ones by the pairing:            *)
(*    x^k G, x^k H (k < n);   alpha G;  beta G, beta H;  delta G, delta H;       *)
(*    gamma H;   (L_i + E_i)(x) G;  E_i(x) G;  R_i(x) H;                         *)
(*    x^k D(x)/delta G;   (alpha R_i + beta (L_i + E_i) + O_i)(x) / gamma G for  *)
(*    the public wires i, / delta for the others.                                *)
(* Many relations of one kind are checked at once, as a combination with fixed   *)
(* coefficients that have nothing to do with the key.                            *)
EXTENDS Codec, TLCExt, Json, IOUtils, FiniteSets
INSTANCE R1CS
A == INSTANCE Algebra
VARIABLES i
Recs == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Tag(t, what) == <<t, what>>
Tags == IOEnv.TAGS
Wanted(t) == \E k \in 1..Len(Tags) : Len(Tags) >= k + Len(t) - 1 /\ SubSeq(Tags, k, k + Len(t) - 1) = t

\* fixed numbers without relation to each other
Rho(n) == BMod(BPowMod("7", BAdd("31415926535897932384626433832795028841971", BMul(BOfInt(n), "2718281828459045235360287471352662497757")), P), R)

ks1(n) == [k \in 1..n |-> Rho(100 + k)]
ks2(n) == [k \in 1..n |-> Rho(200 + k)]
Sum1(ps, cs) == FoldLeft(LAMBDA acc, k : IF BMod(cs[k], R) = "0" THEN acc ELSE G1Add(acc, G1Mul(ps[k], cs[k])), <<>>, [k \in 1..Len(ps) |-> k])
Sum2(ps, cs) == FoldLeft(LAMBDA acc, k : IF BMod(cs[k], R) = "0" THEN acc ELSE G2Add(acc, G2Mul(ps[k], cs[k])), <<>>, [k \in 1..Len(ps) |-> k])
\* the product of the pairings of these pairs is one
Balanced(pairs) ==
    F12Times(FoldLeft(LAMBDA acc, x : IF x[1] = <<>> \/ x[2] = <<>> THEN acc ELSE TLCEval(F12Mul(acc, Miller(x[2], x[1]))), F12One, pairs), FinalExp) = F12One

\* the coefficients of the Lagrange basis of the points 0..n-1
LagrangeBasis(n) == TLCEval([g \in 1..n |->
    FoldLeft(LAMBDA acc, h : IF h = g THEN acc ELSE A!PScale(A!PMul(acc, <<BOfInt(1 - h), "1">>, R), BInvMod(BMod(BOfInt(g - h), R), R), R), <<"1">>, [h \in 1..n |-> h])])
Cell(cells, k) == LET S == {j \in 1..Len(cells) : cells[j][1] = k} IN IF S = {} THEN "0" ELSE cells[CHOOSE j \in S : TRUE][2]
Column(rows, mat, k) == TLCEval([g \in 1..Len(rows) |-> Cell(rows[g][mat], k)])

\* every element decoded: an option <<value>>, or <<>> for what is no element
Options(pk) ==
    LET one(t, h) == TLCEval(Dec(t, h))
        list(t, hs) == TLCEval([k \in 1..Len(hs) |-> Dec(t, hs[k])])
    IN  [single |-> <<one("1", pk.alpha1), one("1", pk.beta1), one("1", pk.delta1), one("2", pk.beta2), one("2", pk.gamma2), one("2", pk.delta2)>>,
         many |-> <<list("1", pk.px1), list("1", pk.pxdd), list("1", pk.le), list("1", pk.e), list("1", pk.kg), list("1", pk.kd), list("2", pk.px2), list("2", pk.r)>>]
Bad(o) == \/ \E k \in 1..Len(o.single) : Len(o.single[k]) = 0
          \/ \E m \in 1..Len(o.many) : \E k \in 1..Len(o.many[m]) : Len(o.many[m][k]) = 0
Decode(o) ==
    LET list(m) == TLCEval([k \in 1..Len(o.many[m]) |-> o.many[m][k][1]])
        one(k) == o.single[k][1]
    IN  [alpha1 |-> one(1), beta1 |-> one(2), delta1 |-> one(3), beta2 |-> one(4), gamma2 |-> one(5), delta2 |-> one(6),
         px1 |-> list(1), pxdd |-> list(2), le |-> list(3), e |-> list(4), kg |-> list(5), kd |-> list(6), px2 |-> list(7), r |-> list(8)]

JudgeKey(rows, wl, npub, pk) ==
    LET o == TLCEval(Options(pk))  n == Len(rows) IN
    IF Len(pk.px1) # n \/ Len(pk.px2) # n \/ Len(pk.pxdd) # n \/ Len(pk.le) # wl \/ Len(pk.e) # wl \/ Len(pk.r) # wl \/ Len(pk.kg) # npub \/ Len(pk.kd) # wl - npub
    THEN {Tag("key", "a part of the key has another length")}
    ELSE IF Bad(o) THEN {Tag("key", "the key contains what is no group element")}
    ELSE LET q == TLCEval(Decode(o))
             base == LagrangeBasis(n)
             b1 == TLCEval([g \in 1..n |-> Sum1(q.px1, base[g])])
             b2 == TLCEval([g \in 1..n |-> Sum2(q.px2, base[g])])
             rho(k) == Rho(k)
             ks == [k \in 1..wl |-> rho(k)]
             ksum(mat) == TLCEval([g \in 1..n |-> FoldLeft(LAMBDA acc, k : MAdd(acc, BMul(ks[k], Cell(rows[g][mat], k - 1)), R), "0", [k \in 1..wl |-> k])])
             dom == A!PDomain(n, R)
         IN
         (IF ~A!PEq(pk.domain, dom, R) THEN {Tag("key", "the domain polynomial")} ELSE {})
         \cup (IF q.px1[1] # G1Gen \/ q.px2[1] # G2Gen THEN {Tag("key", "the first power is not the generator")} ELSE {})
         \cup (IF \E k \in 1..wl : q.e[k] # Sum1(b1, Column(rows, "E", k - 1)) THEN {Tag("key", "exponent columns")} ELSE {})
         \cup (IF \E k \in 1..wl : q.le[k] # G1Add(q.e[k], Sum1(b1, Column(rows, "L", k - 1))) THEN {Tag("key", "left plus exponent columns")} ELSE {})
         \cup (IF \E k \in 1..wl : q.r[k] # Sum2(b2, Column(rows, "R", k - 1)) THEN {Tag("key", "right columns")} ELSE {})
         \cup (IF ~Balanced(<< <<G1Add(Sum1(q.px1, ks1(n)), G1Add(G1Mul(q.beta1, Rho(90)), G1Mul(q.delta1, Rho(91)))), G2Gen>>,
                               <<G1Neg(G1Gen), G2Add(Sum2(q.px2, ks1(n)), G2Add(G2Mul(q.beta2, Rho(90)), G2Mul(q.delta2, Rho(91))))>> >>)
               THEN {Tag("key", "an element differs between the two groups")} ELSE {})
         \cup (IF n >= 2 /\ ~Balanced(<< <<G1Add(Sum1(Tail(q.px1), ks1(n - 1)), Sum1(Tail(q.pxdd), ks2(n - 1))), G2Gen>>,
                                         <<G1Neg(G1Add(Sum1(Front(q.px1), ks1(n - 1)), Sum1(Front(q.pxdd), ks2(n - 1)))), q.px2[2]>> >>)
               THEN {Tag("key", "the powers of the secret point")} ELSE {})
         \cup (IF n >= 2 /\ ~Balanced(<< <<q.pxdd[1], q.delta2>>, <<G1Neg(Sum1(q.px1, SubSeq(dom, 1, n))), G2Gen>>, <<G1Neg(q.px1[n]), q.px2[2]>> >>)
               THEN {Tag("key", "the domain polynomial divided by delta")} ELSE {})
         \cup (IF ~Balanced(<< <<Sum1(q.kg, SubSeq(ks, 1, npub)), q.gamma2>>, <<Sum1(q.kd, SubSeq(ks, npub + 1, wl)), q.delta2>>,
                               <<G1Neg(q.alpha1), Sum2(b2, ksum("R"))>>, <<G1Neg(Sum1(q.le, ks)), q.beta2>>, <<G1Neg(Sum1(b1, ksum("O"))), G2Gen>> >>)
               THEN {Tag("key", "public and private combinations")} ELSE {})
         \cup (IF <<>> \in {q.alpha1, q.beta1, q.delta1, q.pxdd[1]} \/ q.gamma2 = <<>> \/ (n >= 2 /\ q.px1[2] = <<>>) THEN {Tag("key", "a secret is zero")} ELSE {})
         \cup (IF Balanced(<< <<q.alpha1, G2Gen>>, <<G1Neg(G1Gen), q.gamma2>> >>) THEN {Tag("key", "two secrets are the same")} ELSE {})
\* all secrets of all keys are different: as elements of one group where that is known
Secrets1(pk) == <<pk.alpha1, pk.beta1, pk.delta1>> \o (IF Len(pk.px1) >= 2 THEN <<pk.px1[2]>> ELSE <<>>)
Secrets2(pk) == <<pk.beta2, pk.gamma2, pk.delta2>> \o (IF Len(pk.px2) >= 2 THEN <<pk.px2[2]>> ELSE <<>>)
Distinct(s) == Cardinality({s[k] : k \in 1..Len(s)}) = Len(s)
All(pks, f(_)) == FoldLeft(LAMBDA acc, pk : acc \o f(pk), <<>>, pks)

Judge(rec) ==
    LET rep == rec.rep IN
    IF rep.refused THEN {}
    ELSE IF rep.crash # "" \/ rep.timeout \/ rep.err # "" THEN {Tag("dead", "crash, hang or refusal: " \o rep.crash \o rep.err)}
    ELSE IF rep.npub # rec.npub THEN {Tag("key", "the number of public wires")}
    ELSE IF rep.wlen <= rec.npub \/ rep.gates = 0 THEN {}
    ELSE IF ~RowsOK(rep.rows, rep.wlen, R) \/ Len(rep.rows) # rep.gates THEN {Tag("machinery", "rows")}
    ELSE IF \E k \in 1..Len(rep.evs) : rep.evs[k].st # "ok" THEN {Tag("key", "the setup is refused")}
    ELSE LET pks == [k \in 1..Len(rep.evs) |-> rep.evs[k].pk] IN
         UNION {JudgeKey(rep.rows, rep.wlen, rec.npub, pks[k]) : k \in 1..Len(pks)}
         \cup (IF ~Distinct(All(pks, Secrets1)) \/ ~Distinct(All(pks, Secrets2)) THEN {Tag("key", "a secret occurs twice")} ELSE {})
         \cup (IF \E k \in 1..Len(rep.evs) : ~rep.evs[k].kept THEN {Tag("operands", "the setup changes the system")} ELSE {})

Init == i = 1
Next == /\ i <= Len(Recs)
        /\ LET rec == Recs[i] IN PrintT(ToJson([kind |-> "rec", id |-> rec.id, ft |-> [keys |-> Len(rec.rep.evs)], why |-> SetToSeq({x \in Judge(rec) : Wanted(x[1]) \/ x[1] = "machinery"})]))
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
