------------------------------- MODULE Tower -------------------------------
(* The target group and the pairing, from their definitions.                   *)
(* Fp12 = Fp2[w] / (w^6 - xi), xi = i + 9: an element is the sequence of its    *)
(* six coefficients, the constant one first.  The pairing is the optimal Ate    *)
(* pairing: Miller's algorithm over affine points of the twist, all lines       *)
(* multiplied out in Fp12, and the power (p^12 - 1) / r of the product.         *)
EXTENDS Curve, TLC

XiMul(a) == F2Mul(a, <<"1", "9">>)
F12One  == << <<"0", "1">>, F2Zero, F2Zero, F2Zero, F2Zero, F2Zero >>
F12MulDef(a, b) ==
    LET xb == TLCEval([k \in 1..6 |-> XiMul(b[k])])
        left == TLCEval([n \in 1..12 |-> a[(n + 1) \div 2][IF n % 2 = 1 THEN 2 ELSE 1]])       \* re, im, re, im, ...
        fac(k, j) == IF k >= j THEN b[k - j + 1] ELSE xb[k - j + 7]                             \* what a[j] meets in coefficient k
        re(k) == MDot(left, TLCEval([n \in 1..12 |-> LET f == fac(k, (n + 1) \div 2) IN IF n % 2 = 1 THEN f[2] ELSE BNeg(f[1])]), P)
        im(k) == MDot(left, TLCEval([n \in 1..12 |-> LET f == fac(k, (n + 1) \div 2) IN IF n % 2 = 1 THEN f[1] ELSE f[2]]), P)
    IN  TLCEval([k \in 1..6 |-> <<im(k), re(k)>>])
\* TLC takes F12Mul and F12Times from harness/java
F12Mul(a, b) == F12MulDef(a, b)
F12TimesDef(a, k) == FoldLeft(LAMBDA acc, b : LET d == TLCEval(F12Mul(acc, acc)) IN IF b = 1 THEN TLCEval(F12Mul(d, a)) ELSE d, F12One, Bits(k))

F12Times(a, k) == F12TimesDef(a, k)

\* the code's order of the twelve numbers: w^5, w^3, w, w^4, w^2, 1
F12Order == <<6, 4, 2, 5, 3, 1>>
F12OfSeq(s) == [k \in 1..6 |-> LET n == CHOOSE q \in 1..6 : F12Order[q] = k IN <<s[2 * n - 1], s[2 * n]>>]
F12ToSeq(a) == [n \in 1..12 |-> a[F12Order[(n + 1) \div 2]][IF n % 2 = 1 THEN 1 ELSE 2]]

\* ---------------------------------------------------------------- the pairing
U == "4965661367192848881"
F2Pow(a, k) == FoldLeft(LAMBDA acc, b : LET d == F2Mul(acc, acc) IN IF b = 1 THEN F2Mul(d, a) ELSE d, <<"0", "1">>, Bits(k))
XiP3 == F2Pow(<<"1", "9">>, BQuo(BSub(P, "1"), "3"))
XiP2 == F2Pow(<<"1", "9">>, BQuo(BSub(P, "1"), "2"))
F2Conj(a) == <<BMod(BNeg(a[1]), P), a[2]>>
\* the Frobenius map on points of the twist
Frob(q) == <<F2Mul(F2Conj(q[1]), XiP3), F2Mul(F2Conj(q[2]), XiP2)>>

Slope(a, b) == IF a = b THEN F2Mul(F2Mul(<<"0", "3">>, F2Mul(a[1], a[1])), F2Inv(F2Add(a[2], a[2])))
               ELSE F2Mul(F2Sub(b[2], a[2]), F2Inv(F2Sub(b[1], a[1])))
\* the line through a and b (slope l), untwisted, at the point p of G1
LineAt(a, l, p) == << <<"0", p[2]>>, F2Mul(<<"0", BNeg(p[1])>>, l), F2Zero, F2Sub(F2Mul(l, a[1]), a[2]), F2Zero, F2Zero >>
MillerStep(st, b, p) ==       \* st = <<f, t>>, one line
    LET l == TLCEval(Slope(st[2], b)) IN <<TLCEval(F12Mul(st[1], LineAt(st[2], l, p))), TLCEval(G2Line(st[2], b, l))>>
Miller(q, p) ==
    LET loop == FoldLeft(LAMBDA st, b :
                    LET d == TLCEval(MillerStep(<<TLCEval(F12Mul(st[1], st[1])), st[2]>>, st[2], p)) IN
                    IF b = 1 THEN MillerStep(d, q, p) ELSE d,
                <<F12One, q>>, Tail(Bits(BAdd(BMul("6", U), "2"))))
        q1 == TLCEval(Frob(q))
        a1 == TLCEval(MillerStep(loop, q1, p))
    IN  MillerStep(a1, G2Neg(TLCEval(Frob(q1))), p)[1]
FinalExp == BQuo(BSub(FoldLeft(LAMBDA acc, k : BMul(acc, P), "1", <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>>), "1"), R)
Pairing(p, q) == IF p = <<>> \/ q = <<>> THEN F12One ELSE F12Times(Miller(q, p), FinalExp)
GTGen == TLCEval(Pairing(G1Gen, G2Gen))
ASSUME LET s == F12OfSeq(<<"3", "1", "0", P, "5", "99999999999999999999999999999999999999999999", "7", "0", "1", "2", "3", BSub(P, "1")>>)
           t == [k \in 1..6 |-> <<BMod(BMul(ToString(k), "123456789012345678901234567890123456789012345678901234567890"), P), BSub(P, ToString(k))>>]
           u == TLCEval(F12Mul(F12Mul(t, t), t)) IN
       \A a \in {s, t, u, F12One} : \A b \in {s, t, u, F12One} : F12Mul(a, b) = F12MulDef(a, b) /\ F12Times(a, "11") = F12TimesDef(a, "11") /\ F12Times(a, "0") = F12One
=============================================================================
