-------------------------------- MODULE R1CS --------------------------------
(* A constraint system is a sequence of rows [L, R, E, O]; each is the list  *)
(* of the non-zero coefficients <<wire, coefficient>>.  A wire assignment w   *)
(* (wire i is w[i+1], wire 0 is the constant one) satisfies a row if          *)
(*     <L,w> * <R,w> + X(<E,w> * G) = <O,w>     (mod m)                       *)
(* where X is the first coordinate of a point of G1.                          *)
LOCAL INSTANCE BigNum
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC
LOCAL INSTANCE Curve

Dot(cells, w, m) == FoldLeft(LAMBDA acc, c : MAdd(acc, BMul(c[2], w[c[1] + 1]), m), "0", cells)
Expo(cells, w, m) == IF cells = <<>> THEN "0" ELSE BMod(G1BaseX(Dot(cells, w, m)), m)
RowSat(row, w, m) == MAdd(BMul(Dot(row.L, w, m), Dot(row.R, w, m)), Expo(row.E, w, m), m) = Dot(row.O, w, m)
Satisfied(rows, w, m) == \A i \in 1..Len(rows) : RowSat(rows[i], w, m)

CellsOK(cells, wlen, m) ==
    /\ \A i \in 1..Len(cells) : /\ cells[i][1] \in 0..(wlen - 1)
                                /\ BIsNum(cells[i][2])
                                /\ BMod(cells[i][2], m) # "0"
    /\ \A i, j \in 1..Len(cells) : i < j => cells[i][1] # cells[j][1]
RowsOK(rows, wlen, m) == \A i \in 1..Len(rows) :
    /\ CellsOK(rows[i].L, wlen, m) /\ CellsOK(rows[i].R, wlen, m)
    /\ CellsOK(rows[i].E, wlen, m) /\ CellsOK(rows[i].O, wlen, m)

\* ---- all satisfying assignments, over a field small enough to list ---------
\* The rows are turned into TLC integers once; wires are assigned in order and
\* a row is checked as soon as all of its wires are known.
Small(cells, p) == [i \in 1..Len(cells) |-> <<cells[i][1] + 1, BToInt(BMod(cells[i][2], BOfInt(p)))>>]
SmallRow(r, p)  == [L |-> Small(r.L, p), R |-> Small(r.R, p), O |-> Small(r.O, p)]
LastWire(r)  == LET S == {1} \cup {r.L[i][1] : i \in 1..Len(r.L)} \cup {r.R[i][1] : i \in 1..Len(r.R)}
                          \cup {r.O[i][1] : i \in 1..Len(r.O)}
            IN  CHOOSE x \in S : \A y \in S : y <= x
IDot(cells, w, p) == FoldLeft(LAMBDA acc, c : (acc + c[2] * w[c[1]]) % p, 0, cells)
ISat(r, w, p) == (IDot(r.L, w, p) * IDot(r.R, w, p)) % p = IDot(r.O, w, p)

\* byWire[k] = the rows whose last wire is k
ByWire(rows, wlen, p) ==
    LET rs == TLCEval([i \in 1..Len(rows) |-> SmallRow(rows[i], p)])
        la == TLCEval([i \in 1..Len(rows) |-> LastWire(rs[i])])
    IN  TLCEval([k \in 1..wlen |-> LET I == SelectSeq([i \in 1..Len(rows) |-> i], LAMBDA i : la[i] = k)
                           IN  [j \in 1..Len(I) |-> rs[I[j]]]])
Holds(bw, k, w, p) == \A j \in 1..Len(bw[k]) : ISat(bw[k][j], w, p)

\* pre: the first wires (the constant and the inputs) are given
RECURSIVE Extend(_, _, _, _)
Extend(bw, w, wlen, p) ==
    IF Len(w) = wlen THEN {w}
    ELSE UNION { LET v == Append(w, x) IN
                 IF Holds(bw, Len(v), v, p) THEN Extend(bw, v, wlen, p) ELSE {} : x \in 0..(p - 1) }
Solutions(bw, given, wlen, p) ==
    IF \A k \in 1..Len(given) : Holds(bw, k, given, p) THEN Extend(bw, given, wlen, p) ELSE {}
=============================================================================
