----------------------------- MODULE IterTrace -----------------------------
(* Conformance of enumerations: schedules listed by TLC from AvlIter were       *)
(* replayed by the real code; every step must answer what the model answers.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils, SequencesExt
VARIABLE i
Recs == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Tag(x) == <<"iter", x>>

\* one schedule: r.e are the entries in ascending order
Entry(r, up, k) == r.e[IF up THEN k ELSE Len(r.e) + 1 - k]
Check(r, sch, res) ==
    IF Len(res) # Len(sch) THEN {Tag("a schedule was not run to its end")}
    ELSE FoldLeft(LAMBDA acc, x :
        LET s == sch[x]  got == res[x]  e == s[2] IN
        CASE s[1] = "start" -> [acc EXCEPT !.asc = Append(@, s[3] = 1), !.pos = Append(@, 0)]
          [] s[1] = "look" -> IF got = <<"look", r.e>> THEN acc ELSE [acc EXCEPT !.why = @ \cup {Tag("look-up while enumerations run")}]
          [] s[1] = "recv" ->
             LET want == IF acc.pos[e] = Len(r.e) THEN <<"end">> ELSE <<"entry", Entry(r, acc.asc[e], acc.pos[e] + 1)>> IN
             IF got = want THEN [acc EXCEPT !.pos[e] = @ + 1]
             ELSE [acc EXCEPT !.why = @ \cup {Tag(IF got = <<"stuck">> THEN "an enumeration does not go on"
                                                  ELSE "an enumeration yields other entries than the vector's, in their order")}],
        [asc |-> <<>>, pos |-> <<>>, why |-> {}], [x \in 1..Len(sch) |-> x]).why
Judge(r) == IF r.rep.crash # "" \/ r.rep.timeout \/ r.rep.err # "" THEN {Tag("enumerations crash or hang: " \o r.rep.crash \o r.rep.err)}
            ELSE (UNION {TLCEval(Check(r, r.scheds[k], r.rep.res[k])) : k \in 1..Len(r.scheds)})
                 \cup (IF r.rep.after # r.e THEN {Tag("reading changes the vector")} ELSE {})
Init == i = 0
Next == /\ i < Len(Recs) /\ i' = i + 1
        /\ LET w == TLCEval(Judge(Recs[i + 1])) IN
           PrintT(ToJson([kind |-> "rec", id |-> Recs[i + 1].id, why |-> SetToSeq(w), ft |-> [schedules |-> Len(Recs[i + 1].scheds)]]))
Spec == Init /\ [][Next]_i
=============================================================================
