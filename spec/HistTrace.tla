----------------------------- MODULE HistTrace -----------------------------
(* The compiler as a machine without memory.  A history is a sequence of      *)
(* compilations and witness computations in one process; its events are the   *)
(* steps of this machine.  Every compilation must yield what a fresh process   *)
(* yields for that text (base), every witness computation what it yielded for  *)
(* the same text and inputs before.                                            *)
EXTENDS Integers, Sequences, TLC, TLCExt, Json, IOUtils, FiniteSets
VARIABLES i, l, memo, why

Recs == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
vars == <<i, l, memo, why>>
Rec == Recs[i]
Ev  == Rec.rep.evs[l]
Dead(r) == r.rep.crash # "" \/ r.rep.timeout

\* what a fresh process computed for the inputs of a history
Known(k) == IF k > Len(Recs) THEN <<>> ELSE [x \in 1..Len(Recs[k].memo) |-> <<<<"solve", Recs[k].memo[x].i, Recs[k].memo[x].in>>, Recs[k].memo[x].got>>]
Init == i = 1 /\ l = 1 /\ memo = Known(1) /\ why = {}
More == i <= Len(Recs) /\ ~Dead(Rec) /\ l <= Len(Rec.rep.evs)
Compile == /\ More /\ Ev.op = "compile"
           /\ why' = IF Ev.got = Rec.base[Ev.i + 1] THEN why
                     ELSE why \cup {<<"history", "compiling a text yields something else than in a fresh process">>}
           /\ l' = l + 1 /\ UNCHANGED <<i, memo>>
Key == <<Ev.op, Ev.i, Ev.in>>
Solve == /\ More /\ Ev.op \in {"solve", "psolve"}
         /\ IF \E k \in 1..Len(memo) : memo[k][1] = Key
            THEN /\ why' = IF \E k \in 1..Len(memo) : memo[k] = <<Key, Ev.got>> THEN why
                           ELSE why \cup {<<"history", "the same inputs yield another witness than before">>}
                 /\ UNCHANGED memo
            ELSE memo' = Append(memo, <<Key, Ev.got>>) /\ UNCHANGED why
         /\ l' = l + 1 /\ UNCHANGED i
\* one history is over
Done == /\ i <= Len(Recs) /\ ~More
        /\ PrintT(ToJson([kind |-> "rec", id |-> Rec.id,
               why |-> (LET w == why \cup IF Rec.rep.timeout THEN {<<"history", "a history does not terminate">>}
                                         ELSE IF Dead(Rec) THEN {<<"history", "a history crashes the process: " \o Rec.rep.crash>>} ELSE {}
                        IN  [k \in 1..Cardinality(w) |-> (CHOOSE s \in [1..Cardinality(w) -> w] : \A a, b \in 1..Cardinality(w) : a # b => s[a] # s[b])[k]]),
               ft |-> [events |-> l - 1, solves |-> Len(memo)]]))
        /\ i' = i + 1 /\ l' = 1 /\ memo' = Known(i + 1) /\ why' = {}
Next == Compile \/ Solve \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
