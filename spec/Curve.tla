------------------------------- MODULE Curve -------------------------------
(* The groups of the pairing, from their definition: affine points with the  *)
(* chord-and-tangent law.                                                     *)
(*    G1 = E(Fp),   y^2 = x^3 + 3                                             *)
(*    G2 < E'(Fp2), y^2 = x^3 + 3/(i+9), i^2 = -1                             *)
(* An element of Fp2 is <<im, re>>, in the order of the code's encoding.      *)
(* The neutral element is <<>>.                                               *)
EXTENDS BigNum, Integers, Sequences, SequencesExt

P == "21888242871839275222246405745257275088696311157297823662689037894645226208583"
R == "21888242871839275222246405745257275088548364400416034343698204186575808495617"

\* ------------------------------------------------------------------- Fp2
F2(im, re)  == <<im, re>>
F2Add(a, b) == <<MAdd(a[1], b[1], P), MAdd(a[2], b[2], P)>>
F2Sub(a, b) == <<MSub(a[1], b[1], P), MSub(a[2], b[2], P)>>
F2MulDef(a, b) == <<MAdd(BMul(a[1], b[2]), BMul(a[2], b[1]), P),
                 MSub(BMul(a[2], b[2]), BMul(a[1], b[1]), P)>>
\* TLC takes F2Mul, G1Add, G1Times, G2Add and G2Times from harness/java, which is
\* faster; that they are what the definitions say is assumed below on sample points.
F2Mul(a, b) == F2MulDef(a, b)
F2Inv(a)    == LET n == BInvMod(MAdd(BMul(a[1], a[1]), BMul(a[2], a[2]), P), P)
               IN  <<MMul(BNeg(a[1]), n, P), MMul(a[2], n, P)>>
F2Zero == <<"0", "0">>

\* --------------------------------------------------------------------- G1
G1B   == "3"
G1Gen == <<"1", "2">>
G1On(p) == p = <<>> \/ MMul(p[2], p[2], P) = MAdd(MMul(p[1], MMul(p[1], p[1], P), P), G1B, P)
G1Neg(p) == IF p = <<>> THEN p ELSE <<p[1], BMod(BNeg(p[2]), P)>>
G1Line(p, q, l) == LET x == MSub(MMul(l, l, P), BAdd(p[1], q[1]), P)
                   IN  <<x, MSub(BMul(l, BSub(p[1], x)), p[2], P)>>
G1AddDef(p, q) ==
    IF p = <<>> THEN q ELSE IF q = <<>> THEN p
    ELSE IF p[1] # q[1] THEN G1Line(p, q, MMul(BSub(q[2], p[2]), BInvMod(BSub(q[1], p[1]), P), P))
    ELSE IF p[2] # q[2] \/ p[2] = "0" THEN <<>>
    ELSE G1Line(p, q, MMul(BMul("3", BMul(p[1], p[1])), BInvMod(BMul("2", p[2]), P), P))
G1Add(p, q) == G1AddDef(p, q)
Bits(k) == [i \in 1..BBitLen(k) |-> BBit(k, BBitLen(k) - i)]       \* most significant first
\* k >= 0
G1TimesDef(p, k) == FoldLeft(LAMBDA acc, b : LET d == G1Add(acc, acc) IN IF b = 1 THEN G1Add(d, p) ELSE d, <<>>, Bits(k))
G1Times(p, k) == G1TimesDef(p, k)
G1Mul(p, k) == G1Times(p, BMod(k, R))

\* the x coordinate of k*G, 0 for the neutral element
G1BaseX(k) == LET p == G1Mul(G1Gen, k) IN IF p = <<>> THEN "0" ELSE p[1]

\* --------------------------------------------------------------------- G2
G2B == F2Mul(<<"0", "3">>, F2Inv(<<"1", "9">>))
G2Gen == << <<"11559732032986387107991004021392285783925812861821192530917403151452391805634",
              "10857046999023057135944570762232829481370756359578518086990519993285655852781">>,
            <<"4082367875863433681332203403145435568316851327593401208105741076214120093531",
              "8495653923123431417604973247489272438418190587263600148770280649306958101930">> >>
G2On(p) == p = <<>> \/ F2Mul(p[2], p[2]) = F2Add(F2Mul(p[1], F2Mul(p[1], p[1])), G2B)
G2Neg(p) == IF p = <<>> THEN p ELSE <<p[1], F2Sub(F2Zero, p[2])>>
G2Line(p, q, l) == LET x == F2Sub(F2Sub(F2Mul(l, l), p[1]), q[1])
                   IN  <<x, F2Sub(F2Mul(l, F2Sub(p[1], x)), p[2])>>
G2AddDef(p, q) ==
    IF p = <<>> THEN q ELSE IF q = <<>> THEN p
    ELSE IF p[1] # q[1] THEN G2Line(p, q, F2Mul(F2Sub(q[2], p[2]), F2Inv(F2Sub(q[1], p[1]))))
    ELSE IF p[2] # q[2] \/ p[2] = F2Zero THEN <<>>
    ELSE G2Line(p, q, F2Mul(F2Mul(<<"0", "3">>, F2Mul(p[1], p[1])), F2Inv(F2Add(p[2], p[2]))))
G2Add(p, q) == G2AddDef(p, q)
\* for points of any order; k >= 0
G2TimesDef(p, k) == FoldLeft(LAMBDA acc, b : LET d == G2Add(acc, acc) IN IF b = 1 THEN G2Add(d, p) ELSE d, <<>>, Bits(k))
G2Times(p, k) == G2TimesDef(p, k)
G2Mul(p, k) == G2Times(p, BMod(k, R))
G2Member(p) == G2On(p) /\ G2Times(p, R) = <<>>

ASSUME G1On(G1Gen) /\ G2On(G2Gen)
ASSUME \A k \in {"0", "1", "2", "13", R} : G1Times(G1Gen, k) = G1TimesDef(G1Gen, k) /\ G2Times(G2Gen, k) = G2TimesDef(G2Gen, k)
ASSUME LET p == <<<<>>, G1Gen, G1Neg(G1Gen), G1Mul(G1Gen, "2"), G1Mul(G1Gen, "5"), G1Mul(G1Gen, "-77777777777777777777")>>
           q == <<<<>>, G2Gen, G2Neg(G2Gen), G2Mul(G2Gen, "2"), G2Mul(G2Gen, "5"), G2Mul(G2Gen, "-77777777777777777777")>> IN
       \A a, b \in 1..6 : /\ G1Add(p[a], p[b]) = G1AddDef(p[a], p[b]) /\ G2Add(q[a], q[b]) = G2AddDef(q[a], q[b])
                          /\ (a > 1 /\ b > 1 => F2Mul(q[a][1], q[b][2]) = F2MulDef(q[a][1], q[b][2]))
=============================================================================
