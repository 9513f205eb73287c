------------------------------ MODULE AvlIter ------------------------------
(* Enumerations of a sparse vector.  Each is a goroutine that walks the tree    *)
(* under a read lock and hands one entry after the other to its reader over an *)
(* unbuffered channel; readers interleave enumerations, look entries up in      *)
(* between, and abandon enumerations (their goroutine then waits forever and     *)
(* keeps its read lock).  Nobody writes.  sched records what the readers did:    *)
(* TLC lists all schedules, the real code replays them.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Size, Enums, MaxLook, Emit
VARIABLES st,      \* of each enumeration: "idle", "run", "dropped", "over"
          asc,     \* its direction
          gor,     \* its goroutine: "none", "offer", "closing", "gone"
          pos,     \* entries handed over so far
          got,     \* what its reader received
          locks,   \* read locks held
          looks, sched
vars == <<st, asc, gor, pos, got, locks, looks, sched>>

Order(up) == IF up THEN [k \in 1..Size |-> k] ELSE [k \in 1..Size |-> Size + 1 - k]
Init == /\ st = [e \in Enums |-> "idle"] /\ asc = [e \in Enums |-> TRUE] /\ gor = [e \in Enums |-> "none"]
        /\ pos = [e \in Enums |-> 0] /\ got = [e \in Enums |-> <<>>] /\ locks = 0 /\ looks = 0 /\ sched = <<>>
\* enumerations are started in the order of their numbers
Start(e, up) == /\ st[e] = "idle" /\ \A f \in Enums : f < e => st[f] # "idle"
                /\ st' = [st EXCEPT ![e] = "run"] /\ asc' = [asc EXCEPT ![e] = up]
                /\ locks' = locks + 1
                /\ gor' = [gor EXCEPT ![e] = IF Size = 0 THEN "closing" ELSE "offer"]
                /\ sched' = Append(sched, <<"start", e, IF up THEN 1 ELSE 0>>)
                /\ UNCHANGED <<pos, got, looks>>
\* the hand-over: sender and reader meet
Recv(e) == /\ st[e] = "run" /\ gor[e] = "offer"
           /\ got' = [got EXCEPT ![e] = Append(@, Order(asc[e])[pos[e] + 1])]
           /\ pos' = [pos EXCEPT ![e] = @ + 1]
           /\ gor' = [gor EXCEPT ![e] = IF pos[e] + 1 = Size THEN "closing" ELSE "offer"]
           /\ sched' = Append(sched, <<"recv", e, 0>>)
           /\ UNCHANGED <<st, asc, locks, looks>>
\* the goroutine closes its channel and gives the lock back; the reader sees the end
Close(e) == /\ gor[e] = "closing" /\ gor' = [gor EXCEPT ![e] = "gone"] /\ locks' = locks - 1
            /\ UNCHANGED <<st, asc, pos, got, looks, sched>>
End(e) == /\ st[e] = "run" /\ gor[e] = "gone" /\ st' = [st EXCEPT ![e] = "over"]
          /\ sched' = Append(sched, <<"recv", e, 0>>) /\ UNCHANGED <<asc, gor, pos, got, locks, looks>>
Drop(e) == /\ st[e] = "run" /\ st' = [st EXCEPT ![e] = "dropped"]
           /\ UNCHANGED <<asc, gor, pos, got, locks, looks, sched>>
\* a read lock can always be had, so a look-up never waits
Look == /\ looks < MaxLook /\ looks' = looks + 1 /\ sched' = Append(sched, <<"look", 0, 0>>)
        /\ UNCHANGED <<st, asc, gor, pos, got, locks>>
Finished == \A e \in Enums : st[e] \in {"dropped", "over"}
Next == \/ \E e \in Enums : Start(e, TRUE) \/ Start(e, FALSE) \/ Recv(e) \/ Close(e) \/ End(e) \/ Drop(e)
        \/ ~Finished /\ Look
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* every reader has seen a prefix of the entries in its order, at the end all
Prefix == \A e \in Enums : /\ Len(got[e]) = pos[e] /\ got[e] = SubSeq(Order(asc[e]), 1, pos[e])
                           /\ (st[e] = "over" => got[e] = Order(asc[e]))
\* a running enumeration can always go on, whatever the others do
NeverStuck == \A e \in Enums : st[e] = "run" => ENABLED (Recv(e) \/ Close(e) \/ End(e))
LocksRight == locks = Cardinality({e \in Enums : gor[e] \in {"offer", "closing"}})
\* prints every complete schedule once
Listed == (Emit /\ Finished /\ \A e \in Enums : gor[e] # "closing") => PrintT(ToJson([sched |-> sched]))
=============================================================================
