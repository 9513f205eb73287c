------------------------------ MODULE Algebra ------------------------------
(* The field of integers modulo m, the ring of polynomials over it, and       *)
(* vectors with few entries, as mathematics.  A polynomial is the sequence of  *)
(* its coefficients, the constant first; a sparse vector is a function from a  *)
(* finite set of indices to non-zero field elements.                           *)
EXTENDS BigNum, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

\* ------------------------------------------------------------------- field
FDiv(a, b, m) == MMul(a, BInvMod(BMod(b, m), m), m)
FCanon(x, m)  == BIsNum(x) /\ BMod(x, m) = x

\* -------------------------------------------------------------- polynomials
Max2(a, b) == IF a > b THEN a ELSE b
Zeros(n) == [i \in 1..n |-> "0"]
Coef(a, i) == IF i \in 1..Len(a) THEN a[i] ELSE "0"
PRed(a, m)  == TLCEval([i \in 1..Len(a) |-> BMod(a[i], m)])
PAdd(a, b, m) == TLCEval([i \in 1..Max2(Len(a), Len(b)) |-> MAdd(Coef(a, i), Coef(b, i), m)])
PSub(a, b, m) == TLCEval([i \in 1..Max2(Len(a), Len(b)) |-> MSub(Coef(a, i), Coef(b, i), m)])
PScale(a, s, m) == TLCEval([i \in 1..Len(a) |-> MMul(a[i], s, m)])
PMul(a, b, m) ==
    IF a = <<>> \/ b = <<>> THEN <<>>
    ELSE TLCEval([k \in 1..(Len(a) + Len(b) - 1) |->
         BMod(FoldLeft(LAMBDA acc, i : IF k + 1 - i \in 1..Len(b) THEN BAdd(acc, BMul(a[i], b[k + 1 - i])) ELSE acc,
                       "0", [i \in 1..Len(a) |-> i]), m)])
PEval(a, x, m) == FoldRight(LAMBDA c, acc : MAdd(BMul(acc, x), c, m), a, "0")
PDot(a, b, m)  == BMod(FoldLeft(LAMBDA acc, i : BAdd(acc, BMul(a[i], b[i])), "0", [i \in 1..Len(a) |-> i]), m)
\* degree + 1, 0 for the zero polynomial
PLen(a, m) == LET S == {i \in 1..Len(a) : BMod(a[i], m) # "0"} IN IF S = {} THEN 0 ELSE Max(S)
PTrim(a, m) == TLCEval([i \in 1..PLen(a, m) |-> BMod(a[i], m)])
PEq(a, b, m) == PTrim(a, m) = PTrim(b, m)
\* X (X-1) ... (X-n+1)
PDomain(n, m) == FoldLeft(LAMBDA acc, i : PMul(acc, <<BOfInt(1 - i), "1">>, m), <<"1">>, [i \in 1..n |-> i])
PIsRemainder(r, b, m) == PLen(r, m) < PLen(b, m)

\* ----------------------------------------------------------- sparse vectors
SNil == [k \in {} |-> "0"]
SMake(D, f(_), m) == LET E == {k \in D : BMod(f(k), m) # "0"} IN TLCEval([k \in E |-> BMod(f(k), m)])
SAt(s, k) == IF k \in DOMAIN s THEN s[k] ELSE "0"
SAdd(a, b, m) == SMake(DOMAIN a \cup DOMAIN b, LAMBDA k : BAdd(SAt(a, k), SAt(b, k)), m)
SSub(a, b, m) == SMake(DOMAIN a \cup DOMAIN b, LAMBDA k : BSub(SAt(a, k), SAt(b, k)), m)
SScale(a, x, m) == SMake(DOMAIN a, LAMBDA k : BMul(a[k], x), m)
SMul(a, b, m) == SMake({x + y : x \in DOMAIN a, y \in DOMAIN b},
                       LAMBDA k : FoldSet(LAMBDA x, acc : BAdd(acc, BMul(a[x], SAt(b, k - x))), "0", DOMAIN a), m)
SEval(a, x, m) == FoldSet(LAMBDA k, acc : MAdd(acc, BMul(a[k], BPowMod(x, BOfInt(k), m)), m), "0", DOMAIN a)
SDeg(a) == IF DOMAIN a = {} THEN -1 ELSE Max(DOMAIN a)
SOfVec(v, m) == SMake(0..(Len(v) - 1), LAMBDA k : v[k + 1], m)
SToVec(s, n) == TLCEval([i \in 1..n |-> SAt(s, i - 1)])
\* a listing <<key, value>> in the order given
SOfList(l) == TLCEval([k \in {l[i][1] : i \in 1..Len(l)} |-> l[CHOOSE i \in 1..Len(l) : l[i][1] = k][2]])
SortedAsc(l)  == \A i \in 1..(Len(l) - 1) : l[i][1] < l[i + 1][1]
SortedDesc(l) == \A i \in 1..(Len(l) - 1) : l[i][1] > l[i + 1][1]
\* the listing l enumerates exactly the entries of s
Lists(l, s) == Len(l) = Cardinality(DOMAIN s) /\ \A i \in 1..Len(l) : l[i][1] \in DOMAIN s /\ l[i][2] = s[l[i][1]]
AscList(l, s)  == SortedAsc(l) /\ Lists(l, s)
DescList(l, s) == SortedDesc(l) /\ Lists(l, s)
=============================================================================
