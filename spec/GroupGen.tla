------------------------------ MODULE GroupGen ------------------------------
(* All short programs over three registers of one group: every operation with   *)
(* every choice of receiver and operands.  The state is the exponents of the     *)
(* registers (a group of order Q stands in for the real one).  TLC lists the     *)
(* programs; the real groups run them.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Regs, Scalars, Q, Len1, HasNeg
VARIABLES e, prog
vars == <<e, prog>>
ScalarSet == {0, 1, 2, -1}
Bound == atoi(IOEnv.BOUND)
Start == {[r \in Regs |-> IF r = 1 THEN 1 ELSE IF r = 2 THEN 2 ELSE 0], [r \in Regs |-> IF r = 1 THEN 1 ELSE IF r = 2 THEN Q - 1 ELSE 3]}
Init == e \in Start /\ prog = << <<"start", 0, 0, 0, e>> >>
Do(d, x, op) == e' = [e EXCEPT ![d] = x % Q] /\ prog' = Append(prog, op)
Next == /\ Len(prog) <= Len1
        /\ \E d \in Regs :
            \/ \E a \in Regs, b \in Regs : Do(d, e[a] + e[b], <<"add", d, a, b>>)
            \/ \E a \in Regs : HasNeg /\ Do(d, Q - e[a], <<"neg", d, a, 0>>)
            \/ \E a \in Regs, k \in Scalars : Do(d, (k + Q) * e[a], <<"mul", d, a, k>>)
            \/ \E k \in Scalars : Do(d, k + Q, <<"base", d, 0, k>>)
            \/ \E a \in Regs : Do(d, e[a], <<"rt", d, a, 0>>)
Spec == Init /\ [][Next]_vars
InGroup == \A r \in Regs : e[r] \in 0..(Q - 1)
Listed == Len(prog) = Len1 + 1 => PrintT(ToJson([prog |-> prog, e |-> e]))
=============================================================================
