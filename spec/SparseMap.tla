----------------------------- MODULE SparseMap -----------------------------
(* A sparse vector as the callers see it: a finite map from indices to         *)
(* non-zero values.  Steps are the operations of the code; Effect gives the    *)
(* map afterwards, Result what the operation answers.                          *)
LOCAL INSTANCE Algebra
LOCAL INSTANCE Integers
LOCAL INSTANCE FiniteSets

Without(s, k) == [x \in DOMAIN s \ {k} |-> s[x]]
Store(s, k, v) == IF v = "0" THEN Without(s, k) ELSE [x \in DOMAIN s \cup {k} |-> IF x = k THEN v ELSE s[x]]

\* the operation refuses to run, the map stays as it is
Refuses(s, op, k) == op = "insno" /\ k \in DOMAIN s
Effect(s, op, k, v, m) ==
    CASE Refuses(s, op, k)  -> s
      [] op \in {"ins", "insno"} -> Store(s, k, v)
      [] op = "putadd" -> Store(s, k, BMod(BAdd(SAt(s, k), v), m))
      [] op = "putmul" -> Store(s, k, BMod(BMul(SAt(s, k), v), m))
      [] op = "rem"    -> Without(s, k)
Result(s, op, k) == IF op = "rem" THEN IF k \in DOMAIN s THEN s[k] ELSE "missing" ELSE ""
=============================================================================
