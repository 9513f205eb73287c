-------------------------------- MODULE Avl --------------------------------
(* The search tree that represents a sparse vector.  A tree is <<>> or         *)
(* <<key, value, height, left, right>>.  The algorithm of the code (insertion  *)
(* and removal with single and double rotations) is a refinement of SparseMap; *)
(* TLC checks this and the balance for all histories over a few keys.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SparseMap
LOCAL INSTANCE Algebra
CONSTANTS Keys, Vals, Mod
VARIABLES t, s

Key(n) == n[1]
Val(n) == n[2]
HeightField(n) == IF n = <<>> THEN 0 ELSE n[3]
Left(n) == n[4]
Right(n) == n[5]

\* ---- what must hold of every tree
RECURSIVE RealHeight(_), Flatten(_), Balanced(_), HeightsRight(_)
RealHeight(n) == IF n = <<>> THEN 0 ELSE 1 + (LET a == RealHeight(n[4])  b == RealHeight(n[5]) IN IF a > b THEN a ELSE b)
Flatten(n) == IF n = <<>> THEN <<>> ELSE Flatten(n[4]) \o <<<<n[1], n[2]>>>> \o Flatten(n[5])
Balanced(n) == n = <<>> \/ (/\ RealHeight(n[4]) - RealHeight(n[5]) \in {-1, 0, 1}
                            /\ Balanced(n[4]) /\ Balanced(n[5]))
HeightsRight(n) == n = <<>> \/ (n[3] = RealHeight(n) /\ HeightsRight(n[4]) /\ HeightsRight(n[5]))
Represents(n, m) == AscList(Flatten(n), m)

\* ---- the algorithm
Node(k, v, l, r) == <<k, v, 1 + (IF HeightField(l) > HeightField(r) THEN HeightField(l) ELSE HeightField(r)), l, r>>
RotR(n) == Node(n[4][1], n[4][2], n[4][4], Node(n[1], n[2], n[4][5], n[5]))
RotL(n) == Node(n[5][1], n[5][2], Node(n[1], n[2], n[4], n[5][4]), n[5][5])
Balance(n0) ==
    LET n == Node(n0[1], n0[2], n0[4], n0[5]) IN
    IF HeightField(n[4]) > HeightField(n[5]) + 1
    THEN RotR(IF HeightField(n[4][4]) < HeightField(n[4][5]) THEN Node(n[1], n[2], RotL(n[4]), n[5]) ELSE n)
    ELSE IF HeightField(n[5]) > HeightField(n[4]) + 1
    THEN RotL(IF HeightField(n[5][5]) < HeightField(n[5][4]) THEN Node(n[1], n[2], n[4], RotR(n[5])) ELSE n)
    ELSE n
RECURSIVE PutT(_, _, _), RemoveT(_, _), Rightmost(_)
PutT(n, k, v) ==
    IF n = <<>> THEN <<k, v, 1, <<>>, <<>>>>
    ELSE IF k = n[1] THEN <<k, v, n[3], n[4], n[5]>>
    ELSE IF k < n[1] THEN Balance(<<n[1], n[2], n[3], PutT(n[4], k, v), n[5]>>)
    ELSE Balance(<<n[1], n[2], n[3], n[4], PutT(n[5], k, v)>>)
Rightmost(n) == IF n[5] = <<>> THEN n ELSE Rightmost(n[5])
RemoveT(n, k) ==
    IF n = <<>> THEN n
    ELSE IF k = n[1] THEN
         IF n[4] # <<>> /\ n[5] # <<>>
         THEN LET x == Rightmost(n[4]) IN Balance(<<x[1], x[2], 0, RemoveT(n[4], x[1]), n[5]>>)
         ELSE IF n[4] = <<>> THEN n[5] ELSE n[4]
    ELSE IF k < n[1] THEN Balance(<<n[1], n[2], n[3], RemoveT(n[4], k), n[5]>>)
    ELSE Balance(<<n[1], n[2], n[3], n[4], RemoveT(n[5], k)>>)
\* an entry which becomes zero disappears
Assign(n, k, v) == IF v = "0" THEN RemoveT(PutT(n, k, v), k) ELSE PutT(n, k, v)

Init == t = <<>> /\ s = SNil
Step(op, k, v) ==
    /\ s' = Effect(s, op, k, v, Mod)
    /\ t' = IF Refuses(s, op, k) THEN t
            ELSE CASE op \in {"ins", "insno"} -> Assign(t, k, v)
                   [] op = "putadd" -> Assign(t, k, MAdd(SAt(s, k), v, Mod))
                   [] op = "putmul" -> Assign(t, k, MMul(SAt(s, k), v, Mod))
                   [] op = "rem"    -> RemoveT(t, k)
Next == \E op \in {"ins", "insno", "putadd", "putmul", "rem"}, k \in Keys, v \in Vals : Step(op, k, v)
Spec == Init /\ [][Next]_<<t, s>>

Refines == Represents(t, s)
Balance1 == Balanced(t) /\ HeightsRight(t)
NoZero == \A k \in DOMAIN s : s[k] # "0"
=============================================================================
