----------------------------- MODULE ProgTrace -----------------------------
(* Conformance of the compiler and of the witness solver: every line of the   *)
(* trace is one program handed to the real code, with the constraint systems  *)
(* it produced (dense and sparse form) and what the two witness solvers made  *)
(* of every input vector.  Each step judges one line against Lang and R1CS.   *)
(*                                                                            *)
(* Rec: id, top (syntax tree), m (modulus), small (all input vectors are      *)
(* listed and the field is small enough to list all assignments), ins, rep    *)
EXTENDS BigNum, Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils, SequencesExt
INSTANCE Lang
INSTANCE R1CS
Syn == INSTANCE Syntax
VARIABLES i, bad

Recs == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

\* ------------------------------------------------------------------ layout
Rest(names, pub) == SelectSeq(names, LAMBDA x : \A j \in 1..Len(pub) : pub[j] # x)
Layout(names, pub) == pub \o Rest(names, pub)
Given(names, pub, in, m) ==
    LET l == Layout(names, pub) IN
    TLCEval(<<"1">> \o [k \in 1..Len(l) |-> BMod(in[CHOOSE j \in 1..Len(names) : names[j] = l[k]], m)])

Ints(s) == TLCEval([k \in 1..Len(s) |-> BToInt(s[k])])
Canon(w, m) == \A k \in 1..Len(w) : BIsNum(w[k]) /\ BMod(w[k], m) = w[k]

\* how many bit vectors of the modulus' length denote x modulo m
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
BitForms(x, m) == Cardinality({v \in 0..(Pow2(BBitLen(m)) - 1) : v % BToInt(m) = BToInt(x)})
RECURSIVE ProdSet(_, _, _)
ProdSet(S, q, m) == IF S = {} THEN 1 ELSE
    LET v == CHOOSE v \in S : TRUE IN BitForms(At(v, q), m) * ProdSet(S \ {v}, q, m)

\* ------------------------------------------------------------- one program
Tag(t, why) == <<t, why>>

JudgeLayout(rec, main) ==
    LET rep == rec.rep  pub == PublicsOf(main.b) IN
    IF rep.inputs # main.p THEN {Tag("layout", "the inputs are not the parameters of main in their order")}
    ELSE IF rep.public # <<"1">> \o pub THEN {Tag("layout", "the public inputs are not the declared ones in their order")}
    ELSE IF rep.npublic # Len(pub) + 1 THEN {Tag("layout", "public input count")}
    ELSE IF \E k \in 1..Len(pub) : \A j \in 1..Len(main.p) : main.p[j] # pub[k] THEN {}
    ELSE UNION { LET w == rep.runs[q].d.w  v == rep.runs[q].s.w
                     g == Given(main.p, pub, rec.ins[q], rec.m) IN
                 (IF rep.runs[q].d.st = "ok" /\ (Len(w) # rep.wlen \/ Len(w) < Len(g)
                        \/ \E k \in 1..Len(g) : w[k] # g[k])
                  THEN {Tag("layout", "wires of the dense witness do not start with 1, public inputs, other inputs")} ELSE {})
                 \cup
                 (IF rep.runs[q].s.st = "ok" /\ (Len(v) # rep.swlen \/ Len(v) < Len(g)
                        \/ \E k \in 1..Len(g) : v[k] # g[k])
                  THEN {Tag("layout", "wires of the sparse witness do not start with 1, public inputs, other inputs")} ELSE {})
               : q \in 1..Len(rec.ins) }

\* the same inputs by name in another order, and wrong ones
\* combo: names, vals, of (the vector these are a permutation of, or 0)
JudgeCombos(rec, main) ==
    UNION { LET c == rec.combos[x]  o == rec.rep.combos[x]
                \* the constant one may be given too, as one
                ns == IF Len(c.names) > 0 /\ Len(c.vals) > 0 /\ c.names[1] = "1" /\ c.vals[1] = "1" THEN Tail(c.names) ELSE c.names
                good == /\ Len(c.names) = Len(c.vals) /\ Len(ns) = Len(main.p)
                        /\ \A a \in 1..Len(main.p) : \E b \in 1..Len(ns) : ns[b] = main.p[a]
                wrong == ~good
            IN  IF wrong THEN IF o.d.st = "ok" \/ o.s.st = "ok" THEN {Tag("layout", "missing, surplus or unknown inputs are accepted")} ELSE {}
                ELSE IF good /\ c.of > 0 THEN
                     LET r == rec.rep.runs[c.of] IN
                     IF (r.d.st = "ok") # (o.d.st = "ok") \/ r.d.w # o.d.w \/ (r.s.st = "ok") # (o.s.st = "ok") \/ r.s.w # o.s.w
                     THEN {Tag("layout", "the order in which inputs are given matters")} ELSE {}
                ELSE {Tag("machinery", "useless combination")}
            : x \in 1..Len(rec.combos) }

\* ---- splitting: one boolean wire per bit, and a row that sums them up
BooleanM(r, m) == /\ r.E = <<>> /\ r.O = <<>> /\ Len(r.R) = 1 /\ r.R[1][2] = "1" /\ r.R[1][1] # 0
                  /\ {<<c[1], BMod(c[2], m)>> : c \in Range(r.L)} = {<<0, BSub(m, "1")>>, <<r.R[1][1], "1">>}
RECURSIVE PowTwo(_)
PowTwo(n) == IF n = 0 THEN "1" ELSE BMul("2", PowTwo(n - 1))
JudgeSplit(rec, st) ==
    LET rows == rec.rep.rows  m == rec.m  n == BBitLen(m)
        bits == TLCEval({rows[k].R[1][1] : k \in {x \in 1..Len(rows) : BooleanM(rows[x], m)}})
        pows == TLCEval({PowTwo(k) : k \in 0..(n - 1)})
        sums == TLCEval({k \in 1..Len(rows) : /\ Len(rows[k].L) = n
                                       /\ {c[2] : c \in Range(rows[k].L)} = pows
                                       /\ {c[1] : c \in Range(rows[k].L)} \subseteq bits})
        Bits(run) == IF run.st # "ok" THEN {}
                     ELSE IF \E b \in bits : run.w[b + 1] \notin {"0", "1"} THEN {Tag("split", "a bit is neither 0 nor 1")}
                     ELSE IF \E k \in sums : BCmp(FoldLeft(LAMBDA acc, c : BAdd(acc, BMul(c[2], run.w[c[1] + 1])), "0", rows[k].L), m) # -1
                     THEN {Tag("split", "the bits are not the binary digits of the value")} ELSE {}
    IN  IF Cardinality(bits) # n * Cardinality(st.sp) THEN {Tag("split", "the number of bits is not the length of the field order")}
        ELSE IF Cardinality(sums) # Cardinality(st.sp) THEN {Tag("split", "the bits are not summed up")}
        ELSE UNION {Bits(rec.rep.runs[q].d) \cup Bits(rec.rep.runs[q].s) : q \in 1..Len(rec.ins)}

\* ---- blinding: one more gate, last, on two more wires, last, which no other
\* gate knows: the first is random, the second its square plus the abscissa of
\* its exponentiation.  Without them the system is the plain one.
BlindRow(rows, wlen) ==
    LET a == wlen - 2  b == wlen - 1 IN
    /\ Len(rows) > 0 /\ wlen > 2
    /\ rows[Len(rows)] = [L |-> <<<<a, "1">>>>, R |-> <<<<a, "1">>>>, E |-> <<<<a, "1">>>>, O |-> <<<<b, "1">>>>]
    /\ \A k \in 1..(Len(rows) - 1) : \A c \in Range(rows[k].L) \cup Range(rows[k].R) \cup Range(rows[k].E) \cup Range(rows[k].O) : c[1] < a
Bare(w) == IF Len(w) < 2 THEN w ELSE SubSeq(w, 1, Len(w) - 2)
BareRun(run) == [run EXCEPT !.w = Bare(run.w)]
BareBoth(o) == [o EXCEPT !.d = BareRun(o.d), !.s = BareRun(o.s)]
Unblind(rep) == [rep EXCEPT !.rows = Front(rep.rows), !.srows = Front(rep.srows), !.wlen = @ - 2, !.swlen = @ - 2, !.gates = @ - 1, !.sgates = @ - 1,
                            !.runs = [q \in 1..Len(@) |-> BareBoth(@[q])], !.combos = [q \in 1..Len(@) |-> BareBoth(@[q])]]
JudgeBlind(rec) ==
    LET rep == rec.rep  m == rec.m
        halves == TLCEval(SelectSeq(FoldLeft(LAMBDA acc, r : acc \o <<r.d, r.s>>, <<>>, rep.runs), LAMBDA h : h.st = "ok"))
        Rnd(w) == w[Len(w) - 1]
    IN  IF ~BlindRow(rep.rows, rep.wlen) \/ ~BlindRow(rep.srows, rep.swlen)
        THEN {Tag("blind", "the blinding gate is not the square of a random value, and its exponentiation, on two new wires")}
        ELSE IF Front(rep.rows) # rep.plain \/ Front(rep.srows) # rep.splain
        THEN {Tag("blind", "but for the blinding gate the system is not the one without it")}
        ELSE IF \E k \in 1..Len(halves) : Len(halves[k].w) # rep.wlen \/ ~Canon(halves[k].w, m)
        THEN {Tag("blind", "the witness is no vector of field elements of the right length")}
        ELSE (IF \E k \in 1..Len(halves) : ~RowSat(rep.rows[Len(rep.rows)], halves[k].w, m)
              THEN {Tag("blind", "the witness violates the blinding gate")} ELSE {})
             \* over a small field values repeat, but hardly all of them
             \cup (IF \/ BBitLen(m) > 128 /\ Cardinality({Rnd(halves[k].w) : k \in 1..Len(halves)}) # Len(halves)
                      \/ Len(halves) >= 60 /\ Cardinality({Rnd(halves[k].w) : k \in 1..Len(halves)}) = 1
                   THEN {Tag("blind", "the random value is not drawn afresh")} ELSE {})
             \* one of 4 values is in the lower 2^16th of the field with probability 2^-64
             \cup (IF Len(halves) >= 4 /\ BBitLen(m) > 128 /\ \A k \in 1..Len(halves) : BBitLen(Rnd(halves[k].w)) < BBitLen(m) - 17
                   THEN {Tag("blind", "the random value is not drawn from the whole field")} ELSE {})

\* ---- exponentiation: the row determines the wire of its result
Wires(cells) == {c[1] : c \in Range(cells)}
JudgeExpo(rec) ==
    LET Off(rows) == \E k \in 1..Len(rows) : rows[k].E # <<>> /\
                       (\/ Len(rows[k].O) # 1 \/ rows[k].L # <<>> \/ rows[k].R # <<>>
                        \/ rows[k].O[1][1] = 0 \/ rows[k].O[1][1] \in Wires(rows[k].E))
    IN  IF Off(rec.rep.rows) \/ Off(rec.rep.srows) THEN {Tag("expo", "an exponentiation does not determine its result")} ELSE {}

JudgeForms(rec) ==
    LET rep == rec.rep IN
    (IF rep.rows # rep.srows \/ rep.wlen # rep.swlen \/ rep.gates # rep.sgates
     THEN {Tag("forms", "dense and sparse constraint systems differ")} ELSE {})
    \cup (IF rep.gates # Len(rep.rows) THEN {Tag("forms", "number of gates is not the number of rows")} ELSE {})
    \cup UNION { LET d == rep.runs[q].d  s == rep.runs[q].s IN
        IF (d.st = "ok") # (s.st = "ok") THEN {Tag("forms", "only one of the solvers accepts the inputs")}
        ELSE IF d.st = "ok" /\ d.w # s.w THEN {Tag("forms", "the solvers compute different witnesses")} ELSE {}
        : q \in 1..Len(rep.runs) }

\* full field: only the solver's witness can be examined
JudgeLarge(rec, main, st) ==
    LET rep == rec.rep  m == rec.m
        Half(q, run, rows, wlen, form) ==
           IF run.st = "ok" THEN
               (IF Len(run.w) # wlen \/ ~Canon(run.w, m) THEN {Tag("solve", form \o ": the witness is no vector of field elements of the right length")}
                ELSE IF ~Satisfied(rows, run.w, m) THEN {Tag("solve", form \o ": the witness violates the constraint system")}
                ELSE {})
               \cup (IF st.ok[q] = "no" THEN {Tag("meaning", form \o ": inputs which violate the program are accepted")} ELSE {})
           ELSE (IF st.ok[q] = "ok" THEN {Tag("meaning", form \o ": inputs which satisfy the program are refused")} ELSE {})
    IN  IF ~RowsOK(rep.rows, rep.wlen, m) \/ ~RowsOK(rep.srows, rep.swlen, m)
        THEN {Tag("rows", "malformed constraint system")}
        ELSE UNION { Half(q, rep.runs[q].d, rep.rows, rep.wlen, "dense")
                     \cup Half(q, rep.runs[q].s, rep.srows, rep.swlen, "sparse") : q \in 1..Len(rec.ins) }

\* small field: the set of all satisfying assignments is known
JudgeSmall(rec, main, st) ==
    LET rep == rec.rep  m == rec.m  p == BToInt(m)  pub == PublicsOf(main.b)
        Half(rows, wlen, form, Sel(_)) ==
          LET bw == ByWire(rows, wlen, p) IN
          UNION { LET g == Ints(Given(main.p, pub, rec.ins[q], m))
                      S == Solutions(bw, g, wlen, p)
                      run == Sel(rep.runs[q])
                      v == st.ok[q] IN
             (IF v = "ok" /\ S = {} THEN {Tag("rows", form \o ": the constraints refuse inputs which satisfy the program")}
              ELSE IF v = "ok" /\ Cardinality(S) # ProdSet(st.sp, q, m)
                   THEN {Tag("rows", form \o ": the constraints do not determine the wires")}
              ELSE IF v = "no" /\ S # {} THEN {Tag("rows", form \o ": the constraints accept inputs which violate the program")}
              ELSE {})
             \cup
             (IF run.st = "ok" THEN
                 (IF Len(run.w) # wlen \/ ~Canon(run.w, m) THEN {Tag("solve", form \o ": the witness is no vector of field elements of the right length")}
                  ELSE IF Ints(run.w) \notin S THEN {Tag("solve", form \o ": the witness violates the constraint system")} ELSE {})
              ELSE IF S # {} /\ v # "undef" THEN {Tag("solve", form \o ": the solver refuses inputs the constraints accept")} ELSE {})
             \cup
             (IF run.st = "ok" /\ v = "no" THEN {Tag("meaning", form \o ": inputs which violate the program are accepted")}
              ELSE IF run.st # "ok" /\ v = "ok" THEN {Tag("meaning", form \o ": inputs which satisfy the program are refused")}
              ELSE {})
             : q \in 1..Len(rec.ins) }
    IN  IF ~RowsOK(rep.rows, rep.wlen, m) \/ ~RowsOK(rep.srows, rep.swlen, m)
        THEN {Tag("rows", "malformed constraint system")}
        ELSE IF rep.wlen < 1 + Len(Layout(main.p, pub)) \/ rep.swlen < 1 + Len(Layout(main.p, pub))
        THEN {Tag("rows", "the witness is shorter than the inputs")}
        ELSE Half(rep.rows, rep.wlen, "dense", LAMBDA r : r.d)
             \cup (IF rep.rows = rep.srows /\ \A q \in 1..Len(rep.runs) : rep.runs[q].d.st = rep.runs[q].s.st
                                                                          /\ rep.runs[q].d.w = rep.runs[q].s.w
                   THEN {} ELSE Half(rep.srows, rep.swlen, "sparse", LAMBDA r : r.s))

\* ---- sharing: no two rows compute the same product or the same quotient
\* A product row is L * R = O with one output wire; its factors are compared
\* without their common integer divisor, which belongs to the output.
Gcd(cells) == FoldLeft(LAMBDA g, c : BGcd(g, c[2]), "0", cells)
Norm(cells) == LET g == TLCEval(Gcd(cells)) IN {<<cells[a][1], BQuo(cells[a][2], g)>> : a \in 1..Len(cells)}
Exact(cells) == {<<cells[a][1], cells[a][2]>> : a \in 1..Len(cells)}
Variable(cells) == \E a \in 1..Len(cells) : cells[a][1] # 0
Below(cells, wire) == \A a \in 1..Len(cells) : cells[a][1] < wire
\* a row that introduces the wire of its result: the product of two earlier
\* values, or the quotient of two earlier values
Product(r)  == r.E = <<>> /\ Len(r.O) = 1 /\ Variable(r.L) /\ Variable(r.R)
               /\ Below(r.L, r.O[1][1]) /\ Below(r.R, r.O[1][1])
Quotient(r) == r.E = <<>> /\ Len(r.L) = 1 /\ Variable(r.R) /\ r.O # <<>> /\ r.L[1][1] # 0
               /\ Below(r.R, r.L[1][1]) /\ Below(r.O, r.L[1][1])
\* the wire a row introduces is larger than all wires of the rows before it
Fresh(rows, k, wire) == \A j \in 1..(k - 1) : Below(rows[j].L, wire) /\ Below(rows[j].R, wire) /\ Below(rows[j].O, wire)
JudgeSharing(rec, st) ==
    LET rows == rec.rep.rows
        prods == {k \in 1..Len(rows) : Product(rows[k]) /\ Fresh(rows, k, rows[k].O[1][1])}
        quots == {k \in 1..Len(rows) : Quotient(rows[k]) /\ Fresh(rows, k, rows[k].L[1][1])}
        pk == TLCEval([k \in prods |-> {Norm(rows[k].L), Norm(rows[k].R)}])
        qk == TLCEval([k \in quots |-> <<Exact(rows[k].O), Exact(rows[k].R)>>])
        mult  == {k \in 1..Len(rows) : Variable(rows[k].L) /\ Variable(rows[k].R)}
    IN  (IF st.sp = {} /\ ~st.zero /\ Cardinality(mult) > Cardinality(DOMAIN st.prods)
         THEN {Tag("sharing", "more multiplication constraints than distinct products and quotients")} ELSE {})
        \cup (IF \E a, b \in prods : a < b /\ pk[a] = pk[b]
         THEN {Tag("sharing", "the same product occupies two constraints")} ELSE {})
        \cup (IF \E a, b \in quots : a < b /\ qk[a] = qk[b]
         THEN {Tag("sharing", "the same quotient occupies two constraints")} ELSE {})

Features(st) == [ok |-> Cardinality({q \in 1..st.n : st.ok[q] = "ok"}),
                 no |-> Cardinality({q \in 1..st.n : st.ok[q] = "no"}),
                 undef |-> Cardinality({q \in 1..st.n : st.ok[q] = "undef"}), ill |-> st.ill, counted |-> IF st.sym /\ ~st.zero THEN 1 ELSE 0]

FreeFeatures(rec, text, static, st, refused) ==
    LET judged == text.r # "open" /\ st.ill \notin {"fuel", "unspecified"} /\ ~(text.r = "yes" /\ rec.rep.big) IN
    [nothing |-> ~judged, noprogram |-> text.r = "no", meaningless |-> judged /\ text.r = "yes" /\ st.ill # "",
     meaning |-> judged /\ st.ill = "" /\ ~refused, refusedgood |-> judged /\ st.ill = "" /\ refused, reason |-> st.ill]

\* a text nobody knows anything about: the inputs are drawn for its parameters
Vectors(pool, n) == [q \in 1..5 |-> [k \in 1..n |-> pool[((q * n + k) % Len(pool)) + 1]]]

JudgePlain(rec0) ==
    LET rep == rec0.rep
        free == "top" \notin DOMAIN rec0
        text == IF "chars" \in DOMAIN rec0 THEN TLCEval(Syn!ReadWith(rec0.chars, IF "files" \in DOMAIN rec0 THEN rec0.files ELSE <<>>)) ELSE [r |-> "yes", top |-> rec0.top]
        \* what the text says, and not the tree it was made from
        top == TLCEval(text.top)
        main == MainOf(top)
        none == main.k = "none"
        rec == IF free /\ text.r = "yes" /\ ~none /\ rec0.ins = <<>> THEN [rec0 EXCEPT !.ins = Vectors(rec0.pool, Len(main.p))] ELSE rec0
        static == free /\ text.r = "yes" /\ StaticBad(top)
        st  == IF text.r # "yes" THEN Ill(NewState(rec.m, 0), IF text.r = "no" THEN "no program" ELSE "unspecified")
               ELSE IF static THEN Ill(NewState(rec.m, 0), "a name is declared twice or a public block is out of place")
               ELSE IF free /\ ~none /\ rec0.ins # <<>> /\ Len(rec0.ins[1]) # Len(main.p) THEN Ill(NewState(rec.m, 0), "layout")
               ELSE IF free /\ ~none /\ ~(Range(PublicsOf(main.b)) \subseteq Range(main.p)) THEN Ill(NewState(rec.m, 0), "unspecified")
               ELSE RunFor(top, rec.ins, rec.m, rec.share \/ free, IF free THEN 200 ELSE 3000)
        refused == rep.crash # "" \/ rep.timeout \/ rep.err # ""
        why == IF ~free /\ (text.r # "yes" \/ top # rec.top) THEN {Tag("machinery", "the text is not read as the tree it was made from")}
               ELSE IF free /\ st.ill = "layout" THEN {Tag("layout", "the inputs are not the parameters of main in their order")}
               ELSE IF free /\ (st.ill = "fuel" \/ rep.big) THEN {}
               ELSE IF st.ill = "fuel" THEN {Tag("machinery", "program out of the model's bounds")}
               \* whether 0 * x * y has a wire is left open
               ELSE IF free /\ st.ill = "unspecified" THEN {}
               ELSE IF rep.timeout THEN {Tag("compile", "the compiler does not terminate")}
               ELSE IF st.ill = "unspecified" THEN {}
               ELSE IF st.ill # "" THEN
                    IF free /\ rep.crash # "" THEN {Tag("compile", "the compiler dies: " \o rep.crash)}
                    ELSE IF refused THEN {} ELSE {Tag("compile", "a program without meaning is accepted: " \o st.ill)}
               \* a program no input satisfies may be refused as a whole (1/(x-x)), and so
               \* may one with mistakes in what is never executed
               ELSE IF refused THEN
                    IF (free /\ (st.sp # {} \/ ~AllKnown(top))) \/ (\A q \in 1..st.n : st.ok[q] # "ok") \/ (st.sp # {} /\ st.zero) THEN {} ELSE {Tag("compile", "a meaningful program is refused: " \o rep.crash \o rep.err)}
               ELSE {Tag("operands", "changed: " \o x) : x \in Range(rep.kept)} \cup JudgeLayout(rec, main) \cup JudgeCombos(rec, main) \cup JudgeExpo(rec) \cup (IF st.sp # {} THEN JudgeSplit(rec, st) ELSE {}) \cup JudgeForms(rec) \cup (IF rec.share THEN JudgeSharing(rec, st) ELSE {})
                    \cup (IF rec.small THEN JudgeSmall(rec, main, st) ELSE JudgeLarge(rec, main, st))
    IN  [why |-> why, ft |-> IF free THEN FreeFeatures(rec, text, static, st, refused) ELSE Features(st)]

Judge(rec) ==
    IF "rnd" \notin DOMAIN rec \/ ~rec.rnd \/ rec.rep.crash # "" \/ rec.rep.timeout \/ rec.rep.err # "" THEN JudgePlain(rec)
    ELSE LET b == TLCEval(JudgeBlind(rec)) IN
         IF b # {} THEN [why |-> b, ft |-> [ok |-> 0, no |-> 0, undef |-> 0, ill |-> "", counted |-> 0]]
         ELSE JudgePlain([rec EXCEPT !.rep = Unblind(rec.rep)])

Tags == IOEnv.TAGS          \* the judgements this run is about, e.g. ",rows,solve,"
Wanted(t) == \E k \in 1..Len(Tags) : Len(Tags) >= k + Len(t) - 1 /\ SubSeq(Tags, k, k + Len(t) - 1) = t

Init == i = 0 /\ bad = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET rec == Recs[i + 1]
               j == TLCEval(Judge(rec))
               w == {x \in j.why : Wanted(x[1]) \/ x[1] = "machinery"}
           IN  /\ bad' = bad + Cardinality(w)
               /\ PrintT(ToJson([kind |-> "rec", id |-> rec.id, why |-> SetToSeq(w), ft |-> j.ft]))
Spec == Init /\ [][Next]_<<i, bad>>
Conforms == bad = 0
=============================================================================
