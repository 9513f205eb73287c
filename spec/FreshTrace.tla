---------------------------- MODULE FreshTrace ----------------------------
(* Where secrets come from.  A history is a sequence of draws: of field        *)
(* elements, of the blinding values of witnesses, of the secrets of setups     *)
(* (made one after the other and at the same time), of group elements.  The    *)
(* machine keeps all values seen so far; every draw adds values that were not  *)
(* there, nor near one that was, nor near the negative of one.  At the end of  *)
(* a long history every binary digit took both values.  A correct source       *)
(* breaks these with a probability below 2^-100.                               *)
EXTENDS BigNum, Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils, SequencesExt
Cv == INSTANCE Curve
VARIABLES i, l, near, keys, all, why
Recs == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
vars == <<i, l, near, keys, all, why>>
R == "21888242871839275222246405745257275088548364400416034343698204186575808495617"
Half == "340282366920938463463374607431768211456"   \* 2^128
Rec == Recs[i]
Ev == Rec.rep.evs[l]
Dead == Rec.rep.crash # "" \/ Rec.rep.timeout \/ Rec.rep.err # ""
More == i <= Len(Recs) /\ ~Dead /\ l <= Len(Rec.rep.evs)
Say(c, s) == IF c THEN {<<"fresh", s>>} ELSE {}

\* neighbourhoods of a value: its upper and its lower half, and those of its negative
Around(v) == LET n == BSub(R, v) IN {<<"hi", BQuo(v, Half)>>, <<"lo", BMod(v, Half)>>, <<"hi", BQuo(n, Half)>>, <<"lo", BMod(n, Half)>>}
\* what follows from one or two values by simple operations
Inv(v) == BInvMod(v, R)
Derived(vs) == UNION {{MAdd(v, v, R), MMul(v, v, R), Inv(v), MAdd(v, "1", R), MSub(v, "1", R)} : v \in vs}
               \cup UNION {{MAdd(v, w, R), MSub(v, w, R), MMul(v, w, R), MMul(v, Inv(w), R), Inv(MMul(v, w, R)), MSub("0", MAdd(v, w, R), R)} : v \in vs, w \in vs}
Related(vals) == \E k \in 1..Len(vals) : vals[k] \in Derived({vals[j] : j \in (1..Len(vals)) \ {k}})
Element(v) == BIsNum(v) /\ BMod(v, R) = v
\* the number the bytes say: rejected while it is zero or beyond the order, as rand.Int reads them
Bytes(b) == FoldLeft(LAMBDA acc, x : BAdd(BMul(acc, "256"), ToString(x)), "0", b)
TopMask(b) == <<b[1] % 64>> \o Tail(b)     \* the order has 254 bits
RECURSIVE Scripted(_)
Scripted(b) == IF Len(b) < 32 THEN "error"
               ELSE LET v == Bytes(TopMask(SubSeq(b, 1, 32))) IN
                    IF v # "0" /\ BCmp(v, R) = -1 THEN v ELSE Scripted(SubSeq(b, 33, Len(b)))

Init == i = 1 /\ l = 1 /\ near = {} /\ keys = {} /\ all = <<>> /\ why = {}
Draw == /\ More /\ Ev.op \in {"draw", "blind", "setup", "group"}
        /\ LET good == \A k \in 1..Len(Ev.vals) : Element(Ev.vals[k])
               a == IF good THEN UNION {Around(Ev.vals[k]) : k \in 1..Len(Ev.vals)} ELSE {}
           IN  /\ why' = why \cup Say(~good, Ev.op \o ": a drawn value is no field element")
                             \cup Say(good /\ Cardinality(a) # 4 * Len(Ev.vals), Ev.op \o ": values drawn together depend on each other")
                             \cup Say(good /\ Len(Ev.vals) > 1 /\ (\A k \in 1..Len(Ev.vals) : Ev.vals[k] # "0") /\ Related(Ev.vals), Ev.op \o ": a value follows from others")
                             \cup Say(a \cap near # {}, Ev.op \o ": a value is drawn that was drawn before, or one near it")
                             \cup Say(Ev.op \in {"setup", "group"} /\ \E k \in 1..Len(Ev.vals) : Ev.vals[k] = "0", Ev.op \o ": zero is no secret")
                             \cup Say(Ev.op = "setup" /\ Len(Ev.vals) # 5, "setup: the number of secrets is not five")
                             \cup (IF Ev.op = "setup" THEN
                                      LET x == {Ev.keys[k] : k \in 1..Len(Ev.keys)} IN
                                      Say(Cardinality(x) # Len(Ev.keys) \/ x \cap keys # {}, "setup: elements of the key repeat")
                                      \cup Say(good /\ \E e \in x : \A k \in 1..Len(Ev.vals) : Cv!G1BaseX(Ev.vals[k]) # e, "setup: the key is not made of its secrets")
                                   ELSE {})
                             \cup (IF Ev.op = "group" THEN Say(~Ev.is, "group: the element is not the power the exponent says") ELSE {})
               /\ near' = near \cup a
               /\ keys' = IF Ev.op = "setup" THEN keys \cup {Ev.keys[k] : k \in 1..Len(Ev.keys)} ELSE keys
               /\ all' = IF good THEN all \o Ev.vals ELSE all
        /\ l' = l + 1 /\ UNCHANGED i
Script == /\ More /\ Ev.op = "scripted"
          /\ why' = why \cup Say(Ev.got # Ev.again, "scripted: the same bytes give different elements")
                        \cup Say(Ev.got # Scripted(Ev.bytes), "scripted: not the first non-zero number below the order that is read")
          /\ l' = l + 1 /\ UNCHANGED <<i, near, keys, all>>
Stuck == IF Len(all) < 256 THEN {}
         ELSE {b \in 0..253 : Cardinality({BBit(all[k], b) : k \in 1..Len(all)}) # 2}
\* a small field, in which every element turns up
Small == /\ More /\ Ev.op = "small"
         /\ LET seen == {Ev.vals[k] : k \in 1..Len(Ev.vals)} IN
            why' = why \cup Say(seen # {ToString(n) : n \in 0..(Rec.m - 1)}, "small: not every element is drawn, or something else is")
         /\ l' = l + 1 /\ UNCHANGED <<i, near, keys, all>>
Done == /\ i <= Len(Recs) /\ ~More
        /\ LET w == why \cup Say(Rec.rep.timeout, "a history does not terminate")
                        \cup Say(~Rec.rep.timeout /\ Dead, "a history fails: " \o Rec.rep.crash \o Rec.rep.err)
                        \cup (IF Dead THEN {} ELSE Say(Stuck # {}, "values are not drawn from the whole field: a binary digit is constant"))
           IN  PrintT(ToJson([kind |-> "rec", id |-> Rec.id, why |-> SetToSeq(w), ft |-> [events |-> l - 1, values |-> Len(all)]]))
        /\ i' = i + 1 /\ l' = 1 /\ near' = {} /\ keys' = {} /\ all' = <<>> /\ why' = {}
Next == Draw \/ Script \/ Small \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
