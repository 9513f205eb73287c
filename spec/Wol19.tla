------------------------------- MODULE Wol19 -------------------------------
(* The proof scheme, with a group element written as its exponent.            *)
(*                                                                            *)
(* A circuit is [rows, wlen, npub]: rows over wires 0..wlen-1, of which the    *)
(* first npub are public.  L_i, R_i, E_i, O_i are the polynomials of wire i     *)
(* (QapTrace says what they are); at the secret point x they take the value      *)
(* sum over g of lambda_g(x) * cell(g, i), lambda_g the Lagrange basis.          *)
(*                                                                            *)
(* A key is its secrets [x, a, b, g, d] (point, alpha, beta, gamma, delta).      *)
(* The code draws them at random; here they are fixed numbers without relation,  *)
(* so that two polynomials in them agree iff they are equal - for the code's     *)
(* secrets and for these alike (the probability of the contrary is 2^-240).      *)
(* What a prover who does not know them can publish are linear combinations of    *)
(* the key's elements, and these are what the events of SnarkTrace are made of.   *)
EXTENDS BigNum, Integers, Sequences, SequencesExt, FiniteSets, TLC
INSTANCE R1CS
Cv == INSTANCE Curve
M == Cv!R

\* numbers without relation
Tau(n) == LET e == BAdd("98765432109876543210987654321098765432109876543210987654321", BMul(BOfInt(n), "31415926535897932384626433832795028841971693993751058209749445923"))
          IN  MAdd(BPowMod("5", e, M), BPowMod("3", BMul(e, e), M), M)
Key(n) == [x |-> Tau(5 * n), a |-> Tau(5 * n + 1), b |-> Tau(5 * n + 2), g |-> Tau(5 * n + 3), d |-> Tau(5 * n + 4)]

Div(a, b) == MMul(a, BInvMod(b, M), M)
\* the Lagrange basis of the points 0..n-1 at x
Basis(n, x) == TLCEval([g \in 1..n |->
    FoldLeft(LAMBDA acc, h : IF h = g THEN acc ELSE MMul(acc, Div(MSub(x, BOfInt(h - 1), M), BMod(BOfInt(g - h), M)), M), "1", [h \in 1..n |-> h])])
Pad(w, n) == [i \in 1..n |-> IF i <= Len(w) THEN w[i] ELSE "0"]
Only(w, lo, hi) == [i \in 1..Len(w) |-> IF i - 1 >= lo /\ i - 1 < hi THEN w[i] ELSE "0"]
\* the value at x of the polynomial with the values v
At(lam, v) == MDot(lam, v, M)
Vals(rows, w, mat) == TLCEval([g \in 1..Len(rows) |-> Dot(rows[g][mat], w, M)])
Combined(c, k, lam, w) ==    \* sum of w[i] * (alpha R_i + beta (L_i + E_i) + O_i)
    MAdd(BMul(k.a, At(lam, Vals(c.rows, w, "R"))), MAdd(BMul(k.b, MAdd(At(lam, Vals(c.rows, w, "L")), At(lam, Vals(c.rows, w, "E")), M)), At(lam, Vals(c.rows, w, "O")), M), M)
Abscissa(f) == IF BMod(f, M) = "0" THEN "0" ELSE BMod(Cv!G1BaseX(f), M)
Defects(rows, w) == TLCEval([g \in 1..Len(rows) |-> MSub(MAdd(BMul(Dot(rows[g].L, w, M), Dot(rows[g].R, w, M)), Expo(rows[g].E, w, M), M), Dot(rows[g].O, w, M), M)])
Witness(c, w) == Len(w) = c.wlen /\ Satisfied(c.rows, w, M)

\* the quotient of the combined polynomial by the domain polynomial, times the latter, at x
QuotientTimesDomain(c, lam, w) ==
    LET P == MSub(MAdd(BMul(At(lam, Vals(c.rows, w, "L")), At(lam, Vals(c.rows, w, "R"))),
                       At(lam, TLCEval([g \in 1..Len(c.rows) |-> Expo(c.rows[g].E, w, M)])), M), At(lam, Vals(c.rows, w, "O")), M)
    IN  MSub(P, At(lam, Defects(c.rows, w)), M)
\* w: the vector the elements are made from, v: the one the quotient is made from
Prove(c, k, w0, v0) ==
    LET w == TLCEval(Pad(w0, c.wlen))  v == TLCEval(Pad(v0, c.wlen))  lam == Basis(Len(c.rows), k.x)  e == At(lam, Vals(c.rows, w, "E")) IN
    [A |-> MAdd(k.a, MAdd(At(lam, Vals(c.rows, w, "L")), e, M), M),
     B |-> At(lam, Vals(c.rows, w, "R")),
     C |-> Div(MAdd(Combined(c, k, lam, TLCEval(Only(w, c.npub, c.wlen))), QuotientTimesDomain(c, lam, v), M), k.d),
     F |-> e]
\* the equation the verifier checks; s: the public signals
Verify(c, k, p, s) ==
    /\ Len(s) = c.npub
    /\ LET lam == Basis(Len(c.rows), k.x) IN
       MAdd(BMul(p.A, MAdd(p.B, k.b, M)), Abscissa(p.F), M)
         = MAdd(BMul(k.a, k.b), MAdd(Combined(c, k, lam, TLCEval(Pad(s, c.wlen))), MAdd(BMul(k.d, p.C), BMul(p.F, p.B), M), M), M)

\* an element replaced or changed.  q: another proof, j: a key, x: a number
KeyEl(j, el) == CASE el = "alpha" -> j.a [] el = "beta" -> j.b [] el = "gamma" -> j.g [] el = "delta" -> j.d
Tampered(p, el, how, q, el2, j, x) ==
    [p EXCEPT ![el] = CASE how = "swap" -> q[el2] [] how = "neg" -> BMod(BNeg(p[el]), M) [] how = "add" -> MAdd(p[el], x, M)
                        [] how = "mul" -> MMul(p[el], x, M) [] how = "set" -> BMod(x, M) [] how = "key" -> KeyEl(j, el2)]
=============================================================================
