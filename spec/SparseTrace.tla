---------------------------- MODULE SparseTrace ----------------------------
(* Conformance of the sparse vector: the real code was explored breadth first  *)
(* over every tree shape it can reach on a few keys; every transition between   *)
(* shapes must be a step of SparseMap that keeps the search tree ordered and   *)
(* balanced, and in every shape the queries must answer what the map says.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils
INSTANCE Algebra
INSTANCE SparseMap
CONSTANTS Keys, Vals, Mod
VARIABLES i, t, s
A == INSTANCE Avl WITH Keys <- {}, Vals <- {}, Mod <- "2", t <- t, s <- s

Recs == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Tag(why) == <<"map", why>>

TreeOK(n) == (IF ~SortedAsc(A!Flatten(n)) THEN {Tag("keys are out of order")} ELSE {})
             \cup (IF ~A!Balanced(n) THEN {Tag("heights of subtrees differ by more than one")} ELSE {})
             \cup (IF ~A!HeightsRight(n) THEN {Tag("a node's height is wrong")} ELSE {})
MapOf(n) == SOfList(A!Flatten(n))

Transition(x, m) ==
    LET pre == MapOf(x[1])  op == x[2]  k == x[3]  v == x[4]  post == x[5]
        want == Effect(pre, op, k, v, m) IN
    TreeOK(post)
    \cup (IF A!Flatten(post) # <<>> /\ \E e \in 1..Len(A!Flatten(post)) : A!Flatten(post)[e][2] = "0" THEN {Tag("a zero entry is kept")} ELSE {})
    \cup (IF ~A!Represents(post, want) THEN {Tag("wrong entries after " \o op)} ELSE {})
    \cup (IF x[6] # Result(pre, op, k) THEN {Tag("wrong answer of " \o op)} ELSE {})
    \cup (IF x[7] # Refuses(pre, op, k) THEN {Tag(op \o " refuses wrongly or does not refuse")} ELSE {})
State(x, n) ==
    LET m == MapOf(x.t)  q == x.q  D == DOMAIN m  last == SDeg(m)
        first == IF D = {} THEN 0 ELSE CHOOSE a \in D : \A b \in D : a <= b IN
    (IF q.size # Cardinality(D) THEN {Tag("size")} ELSE {})
    \cup (IF q.maxp # (IF D = {} THEN 0 ELSE last) \/ q.max # (IF D = {} THEN <<0, "0">> ELSE <<last, m[last]>>) THEN {Tag("largest key")} ELSE {})
    \cup (IF q.min # (IF D = {} THEN <<0, "0">> ELSE <<first, m[first]>>) THEN {Tag("smallest key")} ELSE {})
    \cup (IF ~AscList(q.asc, m) THEN {Tag("ascending enumeration")} ELSE {})
    \cup (IF ~DescList(q.desc, m) \/ ~DescList(q.all, m) THEN {Tag("descending enumeration")} ELSE {})
    \cup (IF q.arr # SToVec(m, n) THEN {Tag("conversion to an array")} ELSE {})
    \cup (IF ~AscList(q.from, m) THEN {Tag("conversion from an array")} ELSE {})
    \cup (IF ~A!Represents(q.clone, m) THEN {Tag("clone")} ELSE {}) \cup TreeOK(q.clone)
    \cup (IF \E k \in 0..n : q.get[k + 1] # <<SAt(m, k), k \in D>> \/ q.has[k + 1] # (k \in D) THEN {Tag("lookup")} ELSE {})

Judge(r) ==
    IF r.rep.crash # "" \/ r.rep.timeout \/ r.rep.err # "" THEN {Tag("operations on a sparse vector crash or hang: " \o r.rep.crash)}
    ELSE UNION {TLCEval(Transition(r.rep.trans[j], r.m)) : j \in 1..Len(r.rep.trans)}
         \cup UNION {TLCEval(State(r.rep.states[j], r.k)) : j \in 1..Len(r.rep.states)}

Init == i = 0 /\ t = <<>> /\ s = <<>>
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET w == TLCEval(Judge(Recs[i + 1])) IN
           PrintT(ToJson([kind |-> "rec", id |-> Recs[i + 1].id, why |-> SetToSeq(w),
                          ft |-> [transitions |-> IF w = {} THEN Len(Recs[i + 1].rep.trans) ELSE 0]]))
        /\ UNCHANGED <<t, s>>
Spec == Init /\ [][Next]_<<i, t, s>>
=============================================================================
