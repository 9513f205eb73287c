------------------------------- MODULE Codec -------------------------------
(* The encoding of group elements: their coordinates, 32 bytes each, the        *)
(* neutral element of a source group as zeros.                                  *)
EXTENDS Tower
Join(ss) == FoldLeft(LAMBDA acc, x : acc \o BHex(x, 32), "", ss)
Enc(t, v) == CASE t = "1" -> IF v = <<>> THEN Join(<<"0", "0">>) ELSE Join(v)
               [] t = "2" -> IF v = <<>> THEN Join(<<"0", "0", "0", "0">>) ELSE Join(v[1] \o v[2])
               [] t = "T" -> Join(F12ToSeq(v))
Count(t) == CASE t = "1" -> 2 [] t = "2" -> 4 [] t = "T" -> 12
Nums(h, n) == [k \in 1..n |-> BOfHex(SubSeq(h, 64 * (k - 1) + 1, 64 * k))]
\* what a string of bytes stands for: <<element>>, or <<>> if it stands for nothing
Dec(t, h) ==
    IF Len(h) # 64 * Count(t) THEN <<>>
    ELSE LET s == TLCEval(Nums(h, Count(t))) IN
         IF \E k \in 1..Len(s) : BLe(P, s[k]) THEN <<>>
         ELSE CASE t = "1" -> IF s = <<"0", "0">> THEN << <<>> >> ELSE IF G1On(s) THEN <<s>> ELSE <<>>
                [] t = "2" -> IF s = <<"0", "0", "0", "0">> THEN << <<>> >>
                              ELSE LET q == << <<s[1], s[2]>>, <<s[3], s[4]>> >> IN IF G2Member(q) THEN <<q>> ELSE <<>>
                [] t = "T" -> <<F12OfSeq(s)>>
=============================================================================
