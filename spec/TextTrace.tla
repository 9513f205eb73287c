----------------------------- MODULE TextTrace ------------------------------
(* Conformance of the front end: every line of the trace is a text, or a list   *)
(* of expressions, handed to the real compiler, and what it made of it.         *)
(*   kind "text": chars, m, rep (err, crash, timeout, inputs, public)           *)
(*   kind "exprs": xs (each a sequence of characters), ins (values of x and y), *)
(*      rep.outs (per expression: err, and the value of the expression)         *)
EXTENDS BigNum, Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils, SequencesExt
INSTANCE Lang
Syn == INSTANCE Syntax
VARIABLES i, bad
Recs == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Tag(t, why) == <<t, why>>

\* ------------------------------------------------------------------- texts
JudgeText(rec) ==
    LET rep == rec.rep
        rd  == TLCEval(Syn!Read(rec.chars))
        yes == rd.r = "yes"
        dup == yes /\ StaticBad(rd.top)
        st  == IF ~yes \/ dup THEN NewState(rec.m, 0) ELSE RunFor(rd.top, <<>>, rec.m, FALSE, 200)
        why == IF rd.r = "no" THEN "it is no program" ELSE IF dup THEN "a name is declared twice or a public block is out of place" ELSE st.ill
        must == rd.r = "no" \/ dup \/ (yes /\ st.ill \notin {"", "fuel", "unspecified"})
        nothing == rd.r = "open" \/ (yes /\ ~dup /\ st.ill \in {"fuel", "unspecified"})
        main == MainOf(rd.top)
        w == IF nothing THEN {}
             ELSE IF rep.timeout THEN {Tag("text", "the compiler does not terminate")}
             ELSE IF rep.crash # "" THEN {Tag("text", "the compiler dies: " \o rep.crash)}
             ELSE IF must THEN IF rep.err # "" THEN {} ELSE {Tag("text", "a text without meaning is accepted: " \o why)}
             ELSE IF rep.err # "" THEN {}
             ELSE IF rep.inputs # main.p THEN {Tag("text", "the inputs are not the parameters of main")}
             ELSE IF rep.public # <<"1">> \o PublicsOf(main.b) THEN {Tag("text", "the public inputs are not the declared ones")}
             ELSE {}
    IN  [why |-> w, ft |-> [nothing |-> nothing, noprogram |-> rd.r = "no", meaningless |-> yes /\ must, meaning |-> ~nothing /\ ~must, refusedgood |-> ~nothing /\ ~must /\ rep.err # "", reason |-> why]]

\* -------------------------------------------------------------- expressions
V(n) == [k |-> "var", n |-> n]
N(v) == [k |-> "num", v |-> v]
B(op, l, r) == [k |-> "bin", op |-> op, l |-> l, r |-> r]
\* the surroundings of the expressions, as in lib/fam_text.py
Around == << [k |-> "arr", n |-> "a", e |-> <<B("+", V("x"), N("1")), V("y"), N("7")>>],
             [k |-> "func", n |-> "f", p |-> <<"u", "v">>, b |-> <<[k |-> "ret", e |-> B("-", V("u"), B("*", N("2"), V("v")))]>>],
             [k |-> "func", n |-> "g", p |-> <<>>, b |-> <<[k |-> "ret", e |-> N("3")]>>] >>
Main(e, last) == << [k |-> "func", n |-> "main", p |-> <<"x", "y", "o">>, b |-> Around \o <<last>>] >>
ReadExpr(chars, inside) ==
    LET l == TLCEval(Syn!Lex(chars)) IN
    IF l.err # "" THEN [r |-> l.err, a |-> 0]
    ELSE LET x == Syn!Expr(l.ts, 1, 1, inside) IN
         IF x.r # "yes" THEN [r |-> x.r, a |-> 0]
         ELSE IF x.p = Len(l.ts) + 1 THEN [r |-> "yes", a |-> x.a]
         ELSE [r |-> Syn!Unexpected(l.ts, x.p, inside).r, a |-> 0]
JudgeExpr(chars, inside, ins, o, m) ==
    LET e == TLCEval(ReadExpr(chars, inside)) IN
    IF e.r = "open" THEN "open"
    ELSE IF e.r = "no" THEN IF o.err = "" THEN "an expression which is none is accepted" ELSE "ok"
    ELSE LET vs == [q \in 1..Len(ins) |-> Append(ins[q], IF o.err # "" \/ o.vals[q] = "none" THEN "0" ELSE o.vals[q])]
             st == RunAs(Main(e.a, IF o.err = "" THEN [k |-> "eq", l |-> e.a, r |-> V("o")] ELSE [k |-> "var", n |-> "o2", e |-> B("+", e.a, N("0"))]), vs, m, FALSE) IN
         IF st.ill = "unspecified" THEN "open"
         ELSE IF st.ill # "" THEN IF o.err = "" THEN "an expression without meaning is accepted: " \o st.ill ELSE "ok"
         \* the compiler may find out that a divisor is always zero
         ELSE IF o.err # "" THEN IF \A q \in 1..Len(ins) : st.ok[q] # "ok" THEN "open" ELSE "an expression is refused: " \o o.err
         ELSE IF \E q \in 1..Len(ins) : o.vals[q] # "none" /\ st.ok[q] = "no" THEN "an expression has another value"
         ELSE IF \E q \in 1..Len(ins) : o.vals[q] = "none" /\ \A z \in 1..Len(ins) : st.ok[z] # "undef" /\ st.ok[z] # "no" THEN "an expression is refused by the solver"
         ELSE "good"
JudgeExprs(rec) ==
    IF rec.rep.timeout \/ rec.rep.crash # "" \/ rec.rep.err # "" THEN [why |-> {Tag("expr", "the compiler dies or does not terminate")}, ft |-> [good |-> 0]]
    ELSE LET js == TLCEval([k \in 1..Len(rec.xs) |-> JudgeExpr(rec.xs[k], rec.inside, rec.ins, rec.rep.outs[k], rec.m)])
             wr == {k \in 1..Len(rec.xs) : js[k] \notin {"ok", "good", "open"}}
             Count(x) == Cardinality({k \in 1..Len(js) : js[k] = x})
         IN  [why |-> {Tag("expr", js[k] \o ": " \o rec.src[k]) : k \in wr}, ft |-> [good |-> Count("good"), refused |-> Count("ok"), open |-> Count("open")]]

Tags == IOEnv.TAGS
Wanted(t) == \E k \in 1..Len(Tags) : Len(Tags) >= k + Len(t) - 1 /\ SubSeq(Tags, k, k + Len(t) - 1) = t
Init == i = 0 /\ bad = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET rec == Recs[i + 1]
               j == TLCEval(IF rec.kind = "text" THEN JudgeText(rec) ELSE JudgeExprs(rec))
               w == {x \in j.why : Wanted(x[1]) \/ x[1] = "machinery"}
           IN  /\ bad' = bad + Cardinality(w)
               /\ PrintT(ToJson([kind |-> "rec", id |-> rec.id, why |-> SetToSeq(w), ft |-> j.ft]))
Spec == Init /\ [][Next]_<<i, bad>>
Conforms == bad = 0
=============================================================================
