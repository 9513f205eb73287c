---------------------------- MODULE SnarkTrace ----------------------------
(* Conformance of setup, prover and verifier: a trace is a sequence of events  *)
(* in one process - keys made, vectors computed, proofs made, damaged, and      *)
(* verified - and follows the steps of the scheme (Wol19) one by one.  The       *)
(* scheme decides every verdict of the verifier.                                 *)
EXTENDS Wol19, Json, IOUtils, TLCExt
VARIABLES i, l, nkeys, wits, proofs, why, tally
vars == <<i, l, nkeys, wits, proofs, why, tally>>
Recs == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Rec == Recs[i]
Tag(t, what) == <<t, what>>
Tags == IOEnv.TAGS
Wanted(t) == \E k \in 1..Len(Tags) : Len(Tags) >= k + Len(t) - 1 /\ SubSeq(Tags, k, k + Len(t) - 1) = t

Circuit(rec) == [rows |-> rec.rep.rows, wlen |-> rec.rep.wlen, npub |-> rec.npub]
Dead == Rec.rep.crash # "" \/ Rec.rep.timeout \/ Rec.rep.err # ""
Fit == ~Dead /\ RowsOK(Rec.rep.rows, Rec.rep.wlen, M) /\ Rec.rep.npub = Rec.npub
\* the scheme needs a gate and a private wire
Proper == Len(Rec.rep.rows) >= 1 /\ Rec.npub >= 1 /\ Rec.npub < Rec.rep.wlen
More == i <= Len(Recs) /\ Fit /\ Proper /\ l <= Len(Rec.rep.evs)
Ev == Rec.evs[l]
Re == Rec.rep.evs[l]
Nil == [at |-> -1]

Zero == [accepted |-> 0, rejected |-> 0, proofs |-> 0, refused |-> 0]
Kept(what) == IF Re.kept THEN {} ELSE {Tag("operands", what \o " changes its arguments")}
Push(s, x) == Append(s, x)
Setup == /\ More /\ Ev.op = "setup"
         /\ nkeys' = Push(nkeys, IF Re.st = "ok" THEN Key(Len(nkeys)) ELSE Nil)
         /\ why' = why \cup (IF Re.st # "ok" THEN {Tag("complete", "the setup is refused")} ELSE {}) \cup Kept("the setup")
         /\ UNCHANGED <<wits, proofs, tally>>
Vector == /\ More /\ Ev.op \in {"wit", "vec"}
          /\ wits' = Push(wits, IF Re.st = "ok" THEN [at |-> 0, w |-> Re.w] ELSE Nil)
          /\ UNCHANGED <<nkeys, proofs, why, tally>>
\* a proof is its elements and how it came about
Prover == /\ More /\ Ev.op = "prove"
          /\ LET c == Circuit(Rec)  w == wits[Ev.w + 1]  v == wits[Ev.wp + 1]  k == nkeys[Ev.key + 1]
                 skip == w = Nil \/ v = Nil \/ k = Nil
                 good == ~skip /\ Witness(c, w.w) /\ (Ev.wp = Ev.w \/ Witness(c, v.w))
             IN  /\ proofs' = Push(proofs, IF Re.st # "ok" \/ skip THEN Nil
                                           ELSE [at |-> 0, key |-> Ev.key, w |-> w.w, good |-> good /\ Ev.w = Ev.wp, raw |-> TRUE, long |-> Len(w.w) > c.wlen \/ Len(v.w) > c.wlen, el |-> Prove(c, k, w.w, v.w)])
                 /\ why' = why \cup (IF good /\ Re.st # "ok" THEN {Tag("complete", "the prover refuses a witness")} ELSE {})
                               \cup (IF skip # (Re.st = "skip") THEN {Tag("machinery", "skipped proofs")} ELSE {}) \cup Kept("the prover")
                 /\ tally' = [tally EXCEPT !.refused = @ + (IF Re.st \in {"error", "panic"} THEN 1 ELSE 0), !.proofs = @ + (IF Re.st = "ok" THEN 1 ELSE 0)]
          /\ UNCHANGED <<nkeys, wits>>
Tamper == /\ More /\ Ev.op = "tamper"
          /\ LET p == proofs[Ev.p + 1]  q == IF Ev.how = "swap" THEN proofs[Ev.q + 1] ELSE p  j == IF Ev.how = "key" THEN nkeys[Ev.key + 1] ELSE [at |-> 0]
                 skip == p = Nil \/ q = Nil \/ j = Nil
             IN  /\ proofs' = Push(proofs, IF skip THEN Nil ELSE
                        [p EXCEPT !.el = Tampered(p.el, Ev.el, Ev.how, q.el, Ev.el2, j, Ev.k), !.raw = FALSE])
                 /\ why' = why \cup (IF skip # (Re.st = "skip") THEN {Tag("machinery", "skipped damage")} ELSE {})
          /\ UNCHANGED <<nkeys, wits, tally>>
SameSignals(s, w, n) == Len(s) = n /\ Len(w) >= n /\ \A k \in 1..n : BMod(s[k], M) = BMod(w[k], M)
Verifier == /\ More /\ Ev.op = "verify"
            /\ LET c == Circuit(Rec)  p == proofs[Ev.p + 1]  k == nkeys[Ev.key + 1]
                   skip == p = Nil \/ k = Nil
                   yes == ~skip /\ ~p.long /\ Verify(c, k, p.el, Ev.vals)
                   plain == ~skip /\ p.raw /\ p.key = Ev.key /\ SameSignals(Ev.vals, p.w, c.npub)
               IN  /\ why' = why \cup (IF skip # (Re.st = "skip") THEN {Tag("machinery", "skipped verdicts")} ELSE {})
                         \cup (IF ~skip /\ Re.st # "ok" THEN {Tag("sound", "the verifier gives no answer"), Tag("complete", "the verifier gives no answer")} ELSE {})
                         \cup (IF ~skip /\ Re.st = "ok" /\ Re.yes # yes
                               THEN IF yes THEN {Tag(IF plain /\ p.good THEN "complete" ELSE "exact", "a valid proof is rejected")}
                                    ELSE {Tag(IF plain THEN "prover" ELSE "sound", "an invalid proof is accepted")}
                               ELSE {})
                         \* an honest proof of a system without group exponentiation is accepted: the scheme itself says so
                         \cup (IF plain /\ p.good /\ ~yes /\ \A g \in 1..Len(c.rows) : c.rows[g].E = <<>> THEN {Tag("machinery", "the scheme rejects an honest proof")} ELSE {})
                         \cup (IF ~skip /\ ~Re.kept THEN {Tag("operands", "the verifier changes its arguments"), Tag("sound", "the verifier changes its arguments")} ELSE {})
                   /\ tally' = [tally EXCEPT !.accepted = @ + (IF yes THEN 1 ELSE 0), !.rejected = @ + (IF ~yes /\ ~skip THEN 1 ELSE 0)]
            /\ UNCHANGED <<nkeys, wits, proofs>>
Step == (Setup \/ Vector \/ Prover \/ Tamper \/ Verifier) /\ l' = l + 1 /\ UNCHANGED i
Done == /\ i <= Len(Recs) /\ ~More
        /\ LET w == IF Rec.rep.refused THEN {} ELSE {x \in why : Wanted(x[1]) \/ x[1] = "machinery"}
                    \cup (IF Dead THEN {Tag("dead", "crash, hang or refusal: " \o Rec.rep.crash \o Rec.rep.err)} ELSE {})
                    \cup (IF ~Dead /\ Rec.rep.npub # Rec.npub THEN {Tag("complete", "the number of public wires")} ELSE {})
                    \cup (IF Fit /\ Proper /\ Len(Rec.rep.evs) # Len(Rec.evs) THEN {Tag("machinery", "events")} ELSE {})
           IN  PrintT(ToJson([kind |-> "rec", id |-> Rec.id, why |-> SetToSeq(w), ft |-> tally]))
        /\ i' = i + 1 /\ l' = 1 /\ nkeys' = <<>> /\ wits' = <<>> /\ proofs' = <<>> /\ why' = {} /\ tally' = Zero

Init == i = 1 /\ l = 1 /\ nkeys = <<>> /\ wits = <<>> /\ proofs = <<>> /\ why = {} /\ tally = Zero
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
