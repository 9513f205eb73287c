------------------------------ MODULE Wol19MC ------------------------------
(* The scheme on a small circuit: p = x^3 + 5 with p public.  Anyone may make  *)
(* proofs from witnesses and from other vectors, under two keys, and combine    *)
(* and change their elements.  A proof is accepted only if it is the proof of a  *)
(* witness of the statement, element by element; every honest proof is accepted. *)
(* TLC goes through all ways to make BOUND proofs, and lists them: they are       *)
(* replayed by the real code on other circuits.                                   *)
EXTENDS Wol19, Json, IOUtils
CONSTANTS Mixed, Emit
VARIABLES proofs, hist
vars == <<proofs, hist>>
Bound == BToInt(IOEnv.BOUND)
m1 == BSub(M, "5")
Circ == [rows |-> << [L |-> << <<2, "1">> >>, R |-> << <<2, "1">> >>, E |-> <<>>, O |-> << <<3, "1">> >>],
                  [L |-> << <<3, "1">> >>, R |-> << <<2, "1">> >>, E |-> <<>>, O |-> << <<0, m1>>, <<1, "1">> >>] >>, wlen |-> 4, npub |-> 2]
Wits == [g1 |-> <<"1", "13", "2", "4">>, g2 |-> <<"1", "32", "3", "9">>, b |-> <<"1", "14", "2", "4">>]
Names == {"g1", "g2", "b"}
Keys == TLCEval(<<Key(0), Key(1)>>)
Made == TLCEval([k \in 1..2 |-> [w \in Names |-> [v \in Names |-> Prove(Circ, Keys[k], Wits[w], Wits[v])]]])
Signals == TLCEval(<< <<"1", "13">>, <<"1", "32">>, <<"1", "14">>, <<"0", "13">>, <<"1", BAdd("13", M)>>, <<"1">>, <<"1", "13", "0">>, <<"13", "1">> >>)
Of == << "g1", "g2", "b", "", "g1", "", "", "" >>
\* what the verifier adds up from the key and the signals
Known == TLCEval([k \in 1..2 |-> [s \in 1..Len(Signals) |-> MAdd(BMul(Keys[k].a, Keys[k].b), Combined(Circ, Keys[k], Basis(2, Keys[k].x), TLCEval(Pad(Signals[s], 4))), M)]])
Takes(k, p, xf, s) ==     \* xf: the first coordinate of the element F
    /\ Len(Signals[s]) = 2
    /\ MAdd(BMul(p.A, MAdd(p.B, Keys[k].b, M)), xf, M) = MAdd(Known[k][s], MAdd(BMul(Keys[k].d, p.C), BMul(p.F, p.B), M), M)
Accepts(k, p, s) == Takes(k, p, Abscissa(p.F), s)
ASSUME \A k \in 1..2 : \A s \in 1..Len(Signals) : \A w, v \in Names : Accepts(k, Made[1][w][v], s) = Verify(Circ, Keys[k], Made[1][w][v], Signals[s])
ASSUME Witness(Circ, Wits.g1) /\ Witness(Circ, Wits.g2) /\ ~Witness(Circ, Wits.b)

Add(el, ev) == proofs' = Append(proofs, el) /\ hist' = Append(hist, ev)
Prover == \E k \in 1..2, w \in Names, v \in Names :
    /\ w = v \/ Mixed
    /\ Add(Made[k][w][v], <<"prove", k - 1, w, v>>)
Change(p, el, how, q, el2, k, x) ==
    Add(Tampered(proofs[p], el, how, proofs[q], el2, Keys[k], x), <<"tamper", p - 1, el, how, q - 1, el2, k - 1, x>>)
Adversary == \E p \in 1..Len(proofs) :
    \/ \E el \in {"A", "B", "C", "F"} : \/ Change(p, el, "mul", 1, "", 1, "2") \/ Change(p, el, "mul", 1, "", 1, "-1")
                                        \/ Change(p, el, "add", 1, "", 1, "1") \/ Change(p, el, "set", 1, "", 1, "0")
    \/ \E q \in 1..Len(proofs) : \/ \E el, el2 \in {"A", "C", "F"} : (p # q \/ el # el2) /\ Change(p, el, "swap", q, el2, 1, "0")
                                 \/ p # q /\ Change(p, "B", "swap", q, "B", 1, "0")
    \/ \E k \in 1..2 : \/ \E el \in {"A", "C", "F"}, e \in {"alpha", "beta", "delta"} : Change(p, el, "key", 1, e, k, "0")
                       \/ \E e \in {"beta", "gamma", "delta"} : Change(p, "B", "key", 1, e, k, "0")
Next == Len(proofs) < Bound /\ (Prover \/ Adversary)
Init == proofs = <<>> /\ hist = <<>>
Spec == Init /\ [][Next]_vars

Newest == proofs[Len(proofs)]
\* Accepted is exactly the proof of a witness of the statement.
SoundAndComplete == proofs # <<>> => LET p == Newest  xf == Abscissa(p.F) IN \A k \in 1..2 : \A s \in 1..Len(Signals) :
    Takes(k, p, xf, s) <=> (Of[s] # "" /\ Witness(Circ, Wits[Of[s]]) /\ p = Made[k][Of[s]][Of[s]])
Listed == ~Emit \/ Len(proofs) < Bound \/ PrintT(ToJson([sched |-> hist]))
=============================================================================
