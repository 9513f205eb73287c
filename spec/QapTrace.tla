----------------------------- MODULE QapTrace -----------------------------
(* From constraint systems to polynomials.  A system of n rows over w wires   *)
(* is turned into 4w polynomials, one for each wire and matrix: at the point   *)
(* g (the gates are numbered from 0) it takes the entry of the matrix in row g,*)
(* and its degree is less than n.  For a vector w                              *)
(*     P = Lw * Rw + Gw - Ow,    Xw = the sum of w[i] * X_i,                    *)
(* Gw the polynomial through the first coordinates of (E_g . w) * G; w          *)
(* satisfies the system iff X (X-1) ... (X-n+1) divides P.                      *)
(*                                                                              *)
(* Every record is one system with what the code made of it, in dense and in    *)
(* sparse form, and of several vectors.                                         *)
EXTENDS Algebra, Json, IOUtils, TLCExt
INSTANCE R1CS
VARIABLES i
Recs == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Tag(t, what) == <<t, what>>

Cell(cells, k) == LET S == {j \in 1..Len(cells) : cells[j][1] = k} IN IF S = {} THEN "0" ELSE cells[CHOOSE j \in S : TRUE][2]
Mats == <<"L", "R", "E", "O">>

\* the columns: dense as vectors, sparse as lists of entries
ColumnsOK(rows, cols, wlen, m, sparse) ==
    /\ Len(cols) = wlen
    /\ \A k \in 1..wlen : IF sparse
         THEN /\ SortedAsc(cols[k])
              /\ {<<e[1], BMod(e[2], m)>> : e \in Range(cols[k])} = {e \in {<<g - 1, BMod(Cell(rows[g], k - 1), m)>> : g \in 1..Len(rows)} : e[2] # "0"}
         ELSE Len(cols[k]) = Len(rows) /\ \A g \in 1..Len(rows) : BMod(cols[k][g], m) = BMod(Cell(rows[g], k - 1), m)
PolysOK(rows, polys, wlen, m) ==
    /\ Len(polys) = wlen
    /\ \A k \in 1..wlen : /\ PLen(polys[k], m) <= Len(rows)
                          /\ \A g \in 1..Len(rows) : PEval(polys[k], BOfInt(g - 1), m) = BMod(Cell(rows[g], k - 1), m)
\* a sparse polynomial as the sequence of its coefficients; <<>> stands for the zero polynomial
Dense(list, m) == LET s == SOfList(list) IN IF list = <<>> THEN <<>> ELSE SToVec(s, 1 + SDeg(s))
Sum(polys, w, m) == FoldLeft(LAMBDA acc, k : PAdd(acc, PScale(polys[k], w[k], m), m), <<>>, [k \in 1..Len(w) |-> k])
Numbers(v) == \A k \in 1..Len(v) : BIsNum(v[k])
ListOK(l) == SortedAsc(l) /\ \A k \in 1..Len(l) : BIsNum(l[k][2])

JudgeVector(rows, polys, w, out, m) ==
    LET n == Len(rows)
        lw == Sum(polys.L, w, m)  rw == Sum(polys.R, w, m)  ow == Sum(polys.O, w, m)
        g == PSub(PAdd(out.px, ow, m), PMul(lw, rw, m), m)
        defect == TLCEval([k \in 1..n |-> MSub(MAdd(BMul(Dot(rows[k].L, w, m), Dot(rows[k].R, w, m)), Expo(rows[k].E, w, m), m), Dot(rows[k].O, w, m), m)])
        holds == \A k \in 1..n : defect[k] = "0"
        dom == PDomain(n, m)
    IN  IF ~(Numbers(out.px) /\ ListOK(out.spx) /\ Numbers(out.q) /\ Numbers(out.rem) /\ ListOK(out.sq) /\ ListOK(out.srem)) THEN {Tag("poly", "no polynomial")}
        ELSE (IF PLen(g, m) > n \/ \E k \in 1..n : PEval(g, BOfInt(k - 1), m) # Expo(rows[k].E, w, m)
              THEN {Tag("poly", "the combined polynomial is not left times right plus the exponents minus output")} ELSE {})
        \cup (IF ~PEq(Dense(out.spx, m), out.px, m) THEN {Tag("poly", "the sparse combination differs from the dense one")} ELSE {})
        \cup (IF holds # (PLen(out.rem, m) = 0) THEN {Tag("poly", "dense: the domain polynomial divides the combination iff the vector is no witness")} ELSE {})
        \cup (IF holds # (PLen(Dense(out.srem, m), m) = 0) THEN {Tag("poly", "sparse: the domain polynomial divides the combination iff the vector is no witness")} ELSE {})
        \cup (IF PLen(out.rem, m) > n \/ \E k \in 1..n : PEval(out.rem, BOfInt(k - 1), m) # defect[k] THEN {Tag("poly", "the remainder is not the defect of the rows")} ELSE {})
        \cup (IF ~PEq(PAdd(PMul(out.q, dom, m), out.rem, m), out.px, m) \/ ~PEq(PAdd(PMul(Dense(out.sq, m), dom, m), Dense(out.srem, m), m), out.px, m)
              THEN {Tag("poly", "quotient and remainder are not those of the combination")} ELSE {})
        \cup (IF ~out.kept THEN {Tag("operands", "combining changes the vector")} ELSE {})

Judge(rec) ==
    LET rep == rec.rep  m == rec.m  rows == rep.rows  wl == rep.wlen IN
    IF rep.refused THEN {}     \* a program the compiler refuses: no matter here
    ELSE IF rep.crash # "" \/ rep.timeout \/ rep.err # "" THEN {Tag("dead", "crash, hang or refusal: " \o rep.crash \o rep.err)}
    ELSE IF Len(rows) # rep.gates \/ ~RowsOK(rows, wl, m) THEN {Tag("machinery", "the rows")}
    ELSE (IF rep.dt.gates # rep.gates \/ rep.dt.wlen # wl \/ rep.st.gates # rep.gates \/ rep.st.wlen # wl THEN {Tag("columns", "the transposed system has another size")} ELSE {})
    \cup UNION { LET rs == [g \in 1..Len(rows) |-> rows[g][x]] IN
            (IF ~ColumnsOK(rs, rep.dt[x], wl, m, FALSE) THEN {Tag("columns", "dense columns of " \o x)} ELSE {})
            \cup (IF ~ColumnsOK(rs, rep.st[x], wl, m, TRUE) THEN {Tag("columns", "sparse columns of " \o x)} ELSE {})
            \cup (IF ~PolysOK(rs, rep.dp[x], wl, m) THEN {Tag("poly", "dense polynomials of " \o x)} ELSE {})
            \cup (IF Len(rep.sp[x]) # wl \/ \E k \in 1..Len(rep.sp[x]) : ~ListOK(rep.sp[x][k]) THEN {Tag("poly", "sparse polynomials of " \o x)}
                  ELSE IF ~PolysOK(rs, TLCEval([k \in 1..wl |-> Dense(rep.sp[x][k], m)]), wl, m) THEN {Tag("poly", "sparse polynomials of " \o x)} ELSE {}) : x \in Range(Mats) }
    \cup (IF ~PEq(rep.domain, PDomain(Len(rows), m), m) THEN {Tag("poly", "the domain polynomial")} ELSE {})
    \cup (IF ~rep.kept THEN {Tag("operands", "the system is changed")} ELSE {})

JudgeAll(rec) ==
    LET few == rec.rep.err # "" \/ rec.rep.crash # "" \/ rec.rep.timeout \/ BLe(BOfInt(rec.rep.gates), rec.m)    \* else the gates have no points of their own
        base == IF few THEN Judge(rec) ELSE {} IN
    IF ~few \/ rec.rep.refused THEN {} ELSE IF base # {} THEN base
    ELSE IF \E q \in 1..Len(rec.vectors) : rec.vectors[q] # rec.rep.outs[q].w THEN {Tag("machinery", "vectors")}
    ELSE UNION {JudgeVector(rec.rep.rows, rec.rep.dp, rec.rep.outs[q].w, rec.rep.outs[q], rec.m) : q \in 1..Len(rec.rep.outs)}

Tags == TLCEval(IOEnv.TAGS)
Wanted(t) == \E k \in 1..Len(Tags) : Len(Tags) >= k + Len(t) - 1 /\ SubSeq(Tags, k, k + Len(t) - 1) = t
Feature(rec) == IF rec.rep.err # "" \/ rec.rep.crash # "" \/ rec.rep.timeout THEN [vectors |-> 0] ELSE
    [vectors |-> Len(rec.rep.outs), witnesses |-> Cardinality({q \in 1..Len(rec.rep.outs) : Satisfied(rec.rep.rows, rec.rep.outs[q].w, rec.m)}), cells |-> FoldLeft(LAMBDA acc, r : acc + Len(r.L) + Len(r.R) + Len(r.E) + Len(r.O), 0, rec.rep.rows)]
Init == i = 1
Next == /\ i <= Len(Recs)
        /\ LET rec == Recs[i] IN PrintT(ToJson([kind |-> "rec", id |-> rec.id, ft |-> Feature(rec), why |-> SetToSeq({x \in JudgeAll(rec) : Wanted(x[1]) \/ x[1] = "machinery"})]))
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
